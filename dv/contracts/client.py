"""What the write and read macros (C02, C05-C07), the type macros (C06) and the
C++ wrappers (C21) do, in client code (dv/client/)."""
import z3
from ..sym import bv, V, FA, okey, simp, isnum, Break
from .mutator import Mut, A0, Yield
from .roots import Push

WB = {'char': 1, 'short': 2, 'int': 4, 'long': 8, 'ptr': 8}

class Access(Mut):
    """reads and writes exactly one word or part of a word of an object"""
    field = None            # (object parameter, offset) or
    elem = None             # (array parameter, index parameter, width)
    kind = 'ptr'
    write = None            # parameter with the value
    result = False
    def width(s): return WB[s.kind]
    def setup(s, c, st):
        super().setup(c, st)
    def place(s, c):
        if s.elem: return c.z(s.elem[0]), bv(c.off['Arr.as']) + c.z(s.elem[1])*bv(s.width())
        return c.z(s.field[0]), bv(c.off[s.field[1]])
    def requires(s, c):
        A = c.gh['A']
        out = []
        for n, k in s.params:
            if k == 'gc' and n == (s.elem or s.field or ('',))[0]:
                p = c.z(n)
                if s.elem:
                    ln = c.old.ow(p, c.off['Arr.length'])
                    out.append(('an array, an index inside', z3.And(p != 0, z3.ULT(c.z(s.elem[1]), ln), z3.ULT(ln, bv(1 << 26)),
                        z3.Select(A, p) == ((bv(c.off['Arr.as']) + ln*bv(s.width()) + 7) & bv(2**64 - 8)))))
                elif s.field[1].startswith('Node:'): out.append(('an object', z3.And(p != 0, z3.Select(A, p) == bv((c.off['sizeof:Node'] + 7)//8*8))))
                else: out.append(('an array', z3.And(p != 0, z3.UGE(z3.Select(A, p), bv(c.off['Arr.as'])))))
            elif k == 'gc':
                out.append(('an object or null', z3.Or(c.z(n) == 0, z3.Select(A, c.z(n)) != 0)))
        return out
    def valid(s, c, z, size, what):
        off = c.off
        if 'Pool.gen' not in off: return z3.BoolVal(False)
        o = z & bv(off['POOL_BYTES'] - 1)
        card = z3.And(z3.UGE(o, bv(off['Pool.remember'])), z3.ULT(o, bv(off['Pool.remember'] + off['CARDS'])))
        return z3.And(bv(size) == 1, card if what == 'store' else z3.Or(card, o == bv(off['Pool.gen'])))
    def modifies_all(s): return s.modifies
    @property
    def modifies(s):
        m = ('r8', 'r16')
        return m + ('o%d' % (8*s.width()),) if s.write else m
    def ensures(s, c):
        p, o = s.place(c)
        cls = 'o%d' % (8*s.width())
        rd = lambda m: z3.Select(m.arr(cls), okey(p, o))
        out = []
        if s.write:
            v = c.z(s.write) if s.write != '0' else bv(0)
            v = z3.Extract(8*s.width() - 1, 0, v) if v.size() > 8*s.width() else v
            out.append(('holds the value written', rd(c.new) == v))
            k = z3.BitVec('k', 96)
            n, old = c.new.arr(cls), c.old.arr(cls)
            out.append(('nothing else is written', FA([k], z3.Implies(k != okey(p, o), z3.Select(n, k) == z3.Select(old, k)), patterns=[z3.Select(n, k)])))
            if s.result: out.append(('returns the value written', s.same(c.ret.z, v)))
        elif s.result: out.append(('returns the value there', s.same(c.ret.z, rd(c.old))))
        return out
    def same(s, a, b): return z3.Extract(b.size() - 1, 0, a) == b if a.size() > b.size() else a == b
    # the C++ client's helpers
    def external(s, name): return {'@scope': s.scope, '@choose': s.choose, '@same': s.is_same, '@truth': s.truth, '@abort': s.abort}.get(name)
    scope = Push.scope
    choose = Push.choose
    def is_same(s, ex, st, args, i):
        a, b = args
        if not (isnum(simp(a.z)) and simp(a.z).as_long() == 0):
            ex.oblige(st, 'the reference is up to date', z3.BoolVal(a.ep is not None and a.ep == st.epoch), 'rooting')
        ex.oblige(st, 'the reference is to the object expected', a.z == b.z, 'post')
        return None
    def abort(s, ex, st, args, i):
        ex.oblige(st, 'the program is not aborted', z3.BoolVal(False), 'post')
        return 'dead'
    def truth(s, ex, st, args, i):
        f = lambda v: v.z != 0
        ex.oblige(st, 'the comparison is right', f(args[0]) == f(args[1]), 'post')
        return None

class Up(Access):
    """the user pointer of an object's descriptor"""
    def place(s, c): return c.old.ow(c.z('n'), 0), bv(c.off['Desc.user'])
    def requires(s, c):
        A = c.gh['A']; n = c.z('n'); d = c.old.ow(n, 0)
        return [('an object and its descriptor', z3.And(n != 0, z3.UGE(z3.Select(A, n), bv(8)), d != 0, z3.UGE(z3.Select(A, d), bv(c.off['Desc.user'] + 8))))]

class Wrapper(Access):
    """the client's own checks are the contract: what is registered, what it refers to, what is registered at the end"""
    def ensures(s, c): return [('registrations are those on entry', c.new.g('ggggc_pointerStack') == c.old.g('ggggc_pointerStack'))]
    def requires(s, c): return []
    modifies = ('r8', 'r16')
    field = ('', '')

def mk(base, name, params, **kw):
    return type(name, (base,), dict(name=name, params=tuple(params), **kw))

G = lambda *ns: [(n, 'gc') for n in ns]
C_POINTERS = [mk(Access, 'wp_' + f, G('n', 'v'), field=('n', 'Node:' + f), write='v') for f in ('next', 'other', 'arr')] + [
    mk(Access, 'wp_null', G('n'), field=('n', 'Node:other'), write='0'),
    mk(Access, 'wap', G('a') + [('i', 'int')] + G('v'), elem=('a', 'i'), write='v'),
    mk(Up, 'wup', G('n', 'v'), write='v')]
C_DATA = [mk(Access, 'wd_' + f, G('n') + [('x', 'int')], field=('n', 'Node:' + f), kind=k, write='x') for f, k in (('c1', 'char'), ('s', 'short'), ('i', 'int'), ('id', 'long'))] + [
    mk(Access, 'wad_' + k, G('a') + [('i', 'int'), ('x', 'int')], elem=('a', 'i'), kind=k, write='x') for k in ('char', 'short', 'int', 'long')]
C_READS = [mk(Access, 'rp_' + f, G('n'), field=('n', 'Node:' + f), result=True) for f in ('next', 'other')] + [
    mk(Access, 'rd_' + f, G('n'), field=('n', 'Node:' + f), kind=k, result=True) for f, k in (('c1', 'char'), ('s', 'short'), ('i', 'int'), ('id', 'long'))] + [
    mk(Access, 'rap', G('a') + [('i', 'int')], elem=('a', 'i'), result=True)] + [
    mk(Access, 'rad_' + k, G('a') + [('i', 'int')], elem=('a', 'i'), kind=k, result=True) for k in ('char', 'short', 'int', 'long')] + [
    mk(Up, 'rup', G('n'), result=True)]
C_LENGTH = [mk(Access, n, G('a'), field=('a', 'Arr.length'), kind='long', result=True) for n in ('len_pa', 'len_da')]

class Layouts(Mut):
    """the descriptor slots of the sample types hold their size in words and the
    words of exactly their declared pointer members"""
    name = 'layouts'
    params = ()
    barriers = False
    may_gc = False
    P = {'Node': ['next', 'other', 'arr'], 'Wide': ['first', 'far', 'last'], 'Odd': [], 'OddPtr': ['p'], 'GGC_ThreadArg': ['parg']}
    def external(s, name): return (lambda ex, st, args, i: None) if name == '@use' else None
    def ensures(s, c):
        out = []
        for t, ps in s.P.items():
            g = c.ex.m.globals['@' + t + '__descriptorSlot'][1][1]
            n = lambda j: g[j][1][1] if g[j][1][0] == 'int' else 0
            bits = sum(1 << (c.off['%s:%s' % (t, p)]//8) for p in ps)
            out.append(('%s: the size in words' % t, z3.BoolVal(n(2) == (c.off['sizeof:' + t] + 7)//8)))
            out.append(('%s: exactly the pointer members (and the header)' % t, z3.BoolVal((n(3) | 1) % 2**64 == bits | 1)))
        return out

W = [mk(Wrapper, n, G(*a.split())) for n, a in (('w_value', 'n'), ('w_implicit', 'n'), ('w_copy', 'n'), ('w_default', ''), ('w_assign', 'n k'), ('w_chain', 'n k'), ('w_reference', 'n k'), ('w_compare', 'n k'),
     ('w_exits', 'n'), ('w_pass', 'n k'), ('w_mixed', 'n k'), ('pa_registers', 'x y'), ('pa_assigns', 'x y'), ('da_registers', 'x y'))]
CX = [mk(Access, n, G('x') + [('i', 'int')], elem=('x', 'i'), result=True) for n in ('pa_get', 'pa_index')]
CX += [mk(Access, 'pa_put', G('x') + [('i', 'int')] + G('v'), elem=('x', 'i'), write='v', result=True), mk(Access, 'pa_put_safe', G('x') + [('i', 'int')] + G('v'), elem=('x', 'i'), write='v')]
for _k in ('char', 'short', 'int', 'long'):
    CX += [mk(Access, 'da_%s_%s' % (n, _k), G('x') + [('i', 'int')], elem=('x', 'i'), kind=_k, result=True) for n in ('get', 'index')]
    CX += [mk(Access, 'da_put_' + _k, G('x') + [('i', 'int'), ('v', 'int')], elem=('x', 'i'), kind=_k, write='v', result=True)]
for _f, _k in (('c1', 'char'), ('s', 'short'), ('i', 'int'), ('id', 'long'), ('next', 'ptr'), ('other', 'ptr')):
    CX += [mk(Access, p + 'get_' + _f, G('n'), field=('n', 'Node:' + _f), kind=_k, result=True) for p in 'mw']
    CX += [mk(Access, p + 'put_' + _f, G('n') + [('x', 'gc' if _k == 'ptr' else 'int')], field=('n', 'Node:' + _f), kind=_k, write='x') for p in 'mw']
CALLEES = {'@ggggc_yield': Yield()}
C_ALL = C_POINTERS + C_DATA + C_READS + C_LENGTH + [Layouts]
for _c in C_ALL + W + CX: globals()[_c.name] = _c
