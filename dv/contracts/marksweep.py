"""The mark-and-sweep collector (C10, C11).

The heap is seen as words of memory.  OB is the set of allocated objects, and
own(a) says what the word at address a is: the header of an object or another
word of one.  H0 is the memory when the function is entered; marking only ever
changes the lowest bit of headers.  The mark stack's chunks and slots are
memory of their own: CH(n) is the n-th chunk there ever is, BUF(n) its slots."""
import z3
from ..sym import Contract, bv, V, mobj, labelled, okey, LoopInv, HEAP_LO, POOL_HI, Break, simp, isnum, forall, FA
from .alloc import sel

B64 = z3.BitVecSort(64)
own = z3.Function('own', B64, B64)              # what a word is
objof = z3.Function('objof', B64, B64)          # the object a word belongs to
CH = z3.Function('chunk', B64, B64)             # the n-th chunk of the mark stack
BUF = z3.Function('slots', B64, B64)            # its slots
cidx = z3.Function('chunk_index', B64, B64)
bidx = z3.Function('slots_index', B64, B64)
OB = z3.Function('object', B64, z3.BoolSort())
R = z3.Function('reachable', B64, z3.BoolSort())  # any set of objects closed under references
T = z3.Function('obj_trigger', B64, z3.BoolSort())    # only marks terms of interest
TW = z3.Function('word_trigger', B64, z3.BoolSort())
TC = z3.Function('chunk_trigger', B64, z3.BoolSort())
TS = z3.Function('slot_trigger', B64, B64, z3.BoolSort())
HDR, BODY = bv(1), bv(2)
MAXCH = bv(1 << 40)
W64 = z3.ArraySort(B64, B64)
N1 = bv(2**64 - 2)      # all bits but the lowest

class Heap:
    """the references in memory H0"""
    def __init__(s, c, h=None):
        s.c, s.off = c, c.off
        s.H0 = h if h is not None else c.old.arr('r64')
        s.B0 = c.old.arr('r8')
        s.ext = 'Desc.tags' in c.off
    def D(s, a): return sel(s.H0, a) & N1
    def mk0(s, a): return sel(s.H0, a) & 1 == 1
    def size(s, a): return sel(s.H0, s.D(a) + bv(s.off['Desc.size']))
    def live(s, v): return z3.And(v != 0, v & 7 == 0) if s.off.get('TAGGING') else v != 0
    def isptr(s, a, w):
        """word w (not the header) of a is described as a reference"""
        d = s.D(a)
        if s.ext:
            t = d + bv(s.off['Desc.tags'])
            return z3.And(sel(s.B0, t) != 1, sel(s.B0, t + w) & 1 == 0)
        p = d + bv(s.off['Desc.pointers'])
        return z3.And(sel(s.H0, p) & 1 == 1, z3.LShR(sel(s.H0, p + (z3.LShR(w, 6) << 3)), w & 63) & 1 == 1)
    def described(s, a):
        """the parts of its descriptor that describe an object: (offset, bytes)"""
        yield s.off['Desc.size'], bv(8)
        if s.ext: yield s.off['Desc.tags'], z3.LShR(s.size(a) + 7, 3) << 3
        else: yield s.off['Desc.pointers'], z3.LShR(s.size(a) + 63, 6) << 3
    def word(s, k):
        """k is a word other than the header of the object objof(k)"""
        a = objof(k)
        return z3.And(own(k) == BODY, OB(a), z3.UGT(k, a), z3.ULT(k - a, s.size(a) << 3), k & 7 == 0)
    def ref(s, k):
        return z3.And(s.word(k), s.isptr(objof(k), z3.LShR(k - objof(k), 3)), s.live(sel(s.H0, k)))
    def axioms(s):
        a, k = z3.BitVecs('a k', 64)
        yield labelled('ob', [a], z3.Implies(OB(a), z3.And(a & 7 == 0, z3.UGE(a, bv(HEAP_LO)), z3.ULT(a, bv(POOL_HI)), own(a) == HDR, OB(s.D(a)), z3.UGE(s.size(a), bv(1)), z3.ULT(s.size(a), bv(1 << 28)))), T(a))
        # the words of an object are its own, those describing it are its descriptor's
        yield labelled('words', [a, k], z3.Implies(z3.And(OB(a), z3.UGT(k, a), z3.ULT(k - a, s.size(a) << 3), k & 7 == 0), z3.And(own(k) == BODY, objof(k) == a)), [T(a), TW(k)])
        yield labelled('words', [a, k], z3.Implies(z3.And(OB(a), k & 7 == 0, z3.Or([z3.ULT(k - (s.D(a) + bv(o)), n) for o, n in s.described(a)])), own(k) == BODY), [T(a), TW(k)])
        # references lead to objects
        yield labelled('refs', [k], z3.Implies(s.ref(k), OB(sel(s.H0, k))), TW(k))
    def closed(s):
        """R is a set of objects closed under references"""
        a, k = z3.BitVecs('a k', 64)
        yield labelled('ob', [a], z3.Implies(R(a), OB(a)), R(a))
        yield labelled('closed', [a], z3.Implies(R(a), R(s.D(a))), T(a))
        yield labelled('closed', [k], z3.Implies(z3.And(s.ref(k), R(objof(k))), R(sel(s.H0, k))), TW(k))

class Stack:
    """the mark stack: chunks of slots"""
    def __init__(s, c):
        s.c = c
        o = c.off
        s.f = {n: o['TS.' + n] for n in ('prev', 'next', 'used', 'buf')}
        s.N = o['TOSEARCH_SZ']
    def axioms(s):
        n = z3.BitVec('n', 64)
        yield labelled('tc', [n], z3.Implies(z3.ULT(n, MAXCH), z3.And(cidx(CH(n)) == n, bidx(BUF(n)) == n, CH(n) != 0, BUF(n) != 0)), TC(n))
    def get(s, m, n, f): return sel(m.arr('c64'), okey(CH(n), bv(s.f[f])))
    def elem(s, m, n, o): return sel(m.arr('s64'), okey(BUF(n), o))
    def inuse(s, top, n, o):
        """the slot at o of the n-th chunk is in use"""
        cur, used = top
        return z3.And(o & 7 == 0, z3.Or(z3.And(z3.ULT(n, cur), z3.ULT(o, bv(8*s.N))), z3.And(n == cur, z3.ULT(o, used << 3))))
    def inv(s, c, m, nch, nbuf, top=None, started=True):
        """the chunks in memory m; top is the current one, and how many of its slots are in use"""
        n = z3.BitVec('n', 64)
        r = [s.get(m, n, 'prev') == z3.If(n == 0, bv(0), CH(n - 1)),
             s.get(m, n, 'next') == z3.If(z3.ULT(n + 1, nch), CH(n + 1), bv(0)),
             s.get(m, n, 'buf') == z3.If(z3.ULT(n, nbuf), BUF(n), bv(0))]
        if top: r.append(z3.Implies(z3.ULT(n, top[0]), s.get(m, n, 'used') == bv(s.N)))
        g = z3.BoolVal(True) if c.hyp else TC(n)
        yield 'chunks', labelled('chunks', [n], z3.Implies(z3.And(g, z3.ULT(n, nch)), z3.And(r)), TC(n))
        yield 'number of chunks', z3.And(z3.UGE(nch, bv(1)), z3.ULT(nch, MAXCH), z3.Or(nbuf == nch, z3.And(nch == 1, nbuf == 0)) if not started else nbuf == nch)
        if top: yield 'stack height', z3.And(z3.ULT(top[0], nch), z3.ULE(top[1], bv(s.N)), z3.Or(top[0] == 0, top[1] != 0))

class Mark(Contract):
    """every object reachable from the one given is marked, and nothing else is"""
    name = 'mark'
    params = (('obj', 'raw'),)
    merge = True
    modifies = ('r64',)
    rawglobals = ('toSearchList',)
    objglobals = {'toSearchList': 'chunk'}
    regions = {'chunk': 'c', 'slots': 's'}
    def setup(s, c, st):
        gh = st.ghost
        gh['obj'] = bv(0)
        gh['nch'] = z3.BitVec('nch', 64); gh['nbuf'] = z3.BitVec('nbuf', 64)
        gh['posn'] = z3.Const('posn', W64); gh['poso'] = z3.Const('poso', W64)
        s.H = Heap(c); s.S = Stack(c)
        s.t0 = bv(c.ex.gaddr('@toSearchList'))
    def axioms(s, c):
        for f in s.H.axioms(): yield f
        for f in s.H.closed(): yield f
        for f in s.S.axioms(): yield f
        yield CH(bv(0)) == s.t0
        yield z3.And(T(c.z('obj')), T(s.H.D(c.z('obj'))), TC(bv(0)))
    def requires(s, c):
        H, S = s.H, s.S
        c.hyp = True
        r = [('an object', R(c.z('obj')))]
        r += list(S.inv(c, c.old, c.gh['nch'], c.gh['nbuf'], None, False))
        return r + list(s.done(c, H.H0, lambda v: z3.BoolVal(False)))
    def unneeded(s, name):
        n = name.split(': ')[-1]
        if n in ('chunks', 'number of chunks', 'stack height', 'current chunk', 'to be marked') or 'null pointer' in n or 'live object' in n:
            return ('ob', 'words', 'refs', 'closed', 'done', 'only', 'frame', 'todo')
        if 'descriptors of marked' in n or 'references of marked' in n or n == 'the object given': return ('only',)
        if n == 'only reachable objects are marked': return ('done',)
        return ('done', 'only')
    # the terms goals are about
    def trig(s, c): return (lambda *ts: z3.BoolVal(True)) if c.hyp else (lambda *ts: z3.And(ts))
    def done(s, c, m, pend, exc=lambda a, w: z3.BoolVal(False)):
        """what marked objects refer to is marked, or pending"""
        H = s.H
        g = s.trig(c)
        a, k = z3.BitVecs('a k', 64)
        mk = lambda x: sel(m, x) & 1 == 1
        yield 'descriptors of marked objects', labelled('done', [a], z3.Implies(z3.And(g(T(a), T(H.D(a))), OB(a), mk(a)), z3.Or(mk(H.D(a)), pend(H.D(a)))), T(a))
        v = sel(H.H0, k)
        w = z3.LShR(k - objof(k), 3)
        yield 'references of marked objects', labelled('done', [k], z3.Implies(z3.And(g(T(objof(k)), T(v), TW(k)), H.ref(k), mk(objof(k)), z3.Not(exc(objof(k), w))), z3.Or(mk(v), pend(v))), TW(k))
    def only(s, c, m):
        H, S = s.H, s.S
        g = s.trig(c)
        a, k = z3.BitVecs('a k', 64)
        yield 'only reachable objects are marked', labelled('only', [a], z3.Implies(z3.And(g(T(a)), OB(a), sel(m, a) & 1 == 1), z3.Or(H.mk0(a), R(a))), T(a))
        yield 'only marks change', labelled('frame', [k], z3.Implies(g(TW(k), T(k)), z3.Or(sel(m, k) == sel(H.H0, k), z3.And(own(k) == HDR, sel(m, k) == sel(H.H0, k) | 1))), TW(k))
    def valid(s, c, z, size, what):
        a = z & ~bv(7) if size == 1 else z
        c.st.assume(z3.And(T(a), TW(a)))
        if what == 'load': return z3.And(z3.BoolVal(size in (1, 8)), z3.Or(own(a) == HDR, own(a) == BODY))
        return z3.And(z3.BoolVal(size == 8), own(a) == HDR)
    def valid_obj(s, c, p, size, store):
        if size != 8: return z3.BoolVal(False)
        gh = c.st.ghost
        if p.kind == 'chunk':
            n = cidx(p.b)
            return z3.And(z3.ULT(n, gh['nch']), CH(n) == p.b, z3.Or([p.o == bv(f) for f in s.S.f.values()]))
        n = bidx(p.b)
        c.st.assume(TS(n, p.o))
        return z3.And(z3.ULT(n, gh['nbuf']), BUF(n) == p.b, z3.ULT(p.o, bv(8*s.S.N)), p.o & 7 == 0)
    def loadkind(s, p):
        if p.kind != 'chunk' or not isnum(simp(p.o)): return None
        f = {v: k for k, v in s.S.f.items()}.get(simp(p.o).as_long())
        return {'prev': 'chunk', 'next': 'chunk', 'buf': 'slots'}.get(f)
    def on_store(s, ex, st, p, v):
        gh = st.ghost; S = s.S
        if p.kind == 'slots':
            gh['posn'] = z3.Store(gh['posn'], v.z, bidx(p.b)); gh['poso'] = z3.Store(gh['poso'], v.z, p.o)
            st.assume(T(v.z))
        elif p.kind is None:
            gh['obj'] = p.z
            st.assume(z3.And(T(s.H.D(p.z)), T(v.z)))
    def external(s, name): return s.malloc if name == '@malloc' else None
    def malloc(s, ex, st, args, i):
        gh = st.ghost
        n = simp(args[0].z)
        if not isnum(n): raise Break('malloc of an unknown size')
        n = n.as_long()
        if n == 8*s.S.N:
            z = ex.fresh('slots')
            bad = st.copy()
            st.assume(z3.And(z == BUF(gh['nbuf']), z3.ULT(gh['nbuf'], MAXCH), TC(gh['nbuf'])))
            st.ghost['nbuf'] = gh['nbuf'] + 1
            return [(st, mobj(z, 'slots')), (bad, V(bv(0)))]
        if n == ex.off['sizeof.TS']:
            z = ex.fresh('chunk')
            st.assume(z3.And(z == CH(gh['nch']), z3.ULT(gh['nch'], MAXCH), TC(gh['nch'])))
            gh['nch'] = gh['nch'] + 1
            return mobj(z, 'chunk')
        raise Break('malloc of %d bytes' % n)
    def top(s, c):
        x = c.var('toSearch').z
        return cidx(x), sel(c.new.arr('c64'), okey(x, bv(s.S.f['used'])))
    def pend(s, c, m):
        top = s.top(c)
        def f(v):
            n, o = sel(c.gh['posn'], v), sel(c.gh['poso'], v)
            return z3.And(s.S.inuse(top, n, o), s.S.elem(m, n, o) == v, bidx(BUF(n)) == n)
        return f
    def main(s, c, exc=None):
        S, H, gh = s.S, s.H, c.gh
        m = c.new.arr('r64')
        n, o = z3.BitVecs('n o', 64)
        top = s.top(c)
        if c.hyp: yield '', z3.And(TC(top[0]), TC(top[0] + 1), TC(top[0] - 1), TC(gh['nch'] - 1))
        yield 'current chunk', c.var('toSearch').z == CH(top[0])
        for x in S.inv(c, c.new, gh['nch'], gh['nbuf'], top): yield x
        yield 'what is to be marked', labelled('todo', [n, o], z3.Implies(z3.And(s.trig(c)(TS(n, o), TC(n)), S.inuse(top, n, o)), R(S.elem(c.new, n, o))), TS(n, o))
        for x in s.done(c, m, s.pend(c, c.new), *([exc] if exc else [])): yield x
        for x in s.only(c, m): yield x
        o = c.z('obj')
        yield 'the object given', z3.Or(sel(m, o) & 1 == 1, s.pend(c, c.new)(o))
    class Loop(LoopInv):
        ghosts = ('posn', 'poso', 'nch', 'nbuf', 'obj')
        def ghost_init(s, c): return {k: c.gh[k] for k in s.ghosts}
        ghost_step = ghost_init
        def ghost_fresh(s, ex, g, old):
            return z3.Const('%s!g%d' % (g, next(ex.fresh_n)), W64) if g[:3] == 'pos' else ex.fresh(g)
    class Main(Loop):
        name = 'mark what is to be marked'
        def inv(s, c): return c.con.main(c)
    class Words(Loop):
        name = 'the words of an object'
        def inv(s, c):
            con = c.con; H = con.H; m = c.new.arr('r64')
            o = s.cur(c)
            w = c.var('curWord').z
            yield 'an object being marked', z3.And(R(o), sel(m, o) & 1 == 1)
            yield 'words', z3.And(z3.UGE(w, bv(1)), z3.ULE(w, H.size(o)))
            yield 'to be marked', con.top(c)[1] != 0
            d = H.D(o)
            if not H.ext:
                p = d + bv(c.off['Desc.pointers'])
                yield 'description', z3.And(sel(H.H0, p) & 1 == 1, c.var('curDescriptorWord').z == z3.LShR(w - 1, 6),
                    z3.Or(w & 63 == 0, c.var('curDescription').z == z3.LShR(sel(H.H0, p + (z3.LShR(w, 6) << 3)), w & 63)))
            else:
                yield 'description', sel(H.B0, d + bv(c.off['Desc.tags'])) != 1
            for x in con.main(c, lambda a, x: z3.And(a == o, z3.UGE(x, w))): yield x
        def cur(s, c): return c.gh['obj']
    loops = (Main(), Words())
    def ensures(s, c):
        S, H, gh = s.S, s.H, c.gh
        m = c.new.arr('r64')
        r = [('the object given is marked', sel(m, c.z('obj')) & 1 == 1)]
        r += list(s.done(c, m, lambda v: z3.BoolVal(False))) + list(s.only(c, m))
        return r + [('mark stack: ' + n, f) for n, f in S.inv(c, c.new, gh['nch'], gh['nbuf'])]
KEEP = ('mark',)
