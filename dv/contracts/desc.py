"""Descriptors, arrays and descriptor slots (C06, C07, C17, C22), on the
logical (object) view of the heap; see mutator.py.

T is the table of descriptor-descriptors, indexed by described size.  Its
entries become roots by being globalised; ghost `unreg` lists the table
entries and slots written and not yet registered, which must be empty (or on
the pointer stack) whenever a collection may happen."""
import z3
from ..sym import Contract, bv, V, LoopInv, okey, gcref, mobj, simp, isnum, Break, forall
from .mutator import Mut, Alloc, A0, AS

def sel(a, i): return z3.Select(a, i)
I = lambda: z3.BitVec('i', 64)
LIM = 1 << 27

class D:
    """layout of descriptors"""
    def __init__(s, c): s.o, s.c = c.off, c
    ext = property(lambda s: 'Desc.tags' in s.o)
    def words(s, n):
        return z3.LShR((n << 3 if s.ext else n) + 63, 6)
    @property
    def body(s): return s.o['Desc.tags'] if s.ext else s.o['Desc.pointers']
    def dsize(s, n): return s.words(n) + bv(s.body//8)
    def clamp(s, n): return z3.If(z3.ULT(n, bv(s.o['MINOBJ'])), bv(s.o['MINOBJ']), n)
    user = property(lambda s: s.o['Desc.user']//8)
    N = property(lambda s: s.o['NDD'])
    def tab(s, k): return bv(s.c.ex.gaddr('@ggggc_descriptorDescriptors')) + (k << 3)
    def intab(s, a):
        o = a - s.tab(bv(0))
        return z3.And(z3.ULT(o, bv(8*s.N)), o & 7 == 0)
    def index(s, a): return z3.LShR(a - s.tab(bv(0)), 3)
    def T(s, m, k): return m.w(s.tab(k))
    def tabinv(s, m, A):
        """every entry describes descriptors of its size"""
        a = z3.BitVec('a', 64)
        t = m.w(a)
        k = s.index(a)
        ds = s.dsize(k)
        rng = z3.And(s.intab(a), t != 0)
        r = [('size', z3.Implies(rng, z3.And(sel(A, t) == ds << 3, m.ow(t, s.o['Desc.size']) == k, z3.UGE(k, bv(s.o['MINOBJ']))))),
             ('typed', z3.Implies(rng, z3.And(m.ow(t, 0) != 0, m.ow(t, 0) == s.T(m, ds))))]
        out = [('table, ' + n, forall([a], f, t)) for n, f in r]
        q = z3.BitVec('q', 96)
        b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q)) - bv(s.body)
        n = m.ow(b, s.o['Desc.size'])
        ent = z3.And(b != 0, z3.ULT(n, bv(s.N)), s.T(m, n) == b)
        x = sel(m.arr('o8' if s.ext else 'o64'), q)
        if s.ext: mk = z3.Implies(z3.And(ent, z3.ULT(off, n)), x == z3.If(z3.Or(off == 0, off == bv(s.user)), bv(0, 8), bv(1, 8)))
        else: mk = z3.Implies(z3.And(ent, off & 7 == 0, z3.ULT(off, s.words(n) << 3)), x == z3.If(off == 0, bv(1 | 1 << s.user), bv(0)))
        out.append(('table, layout', forall([q], mk, x)))
        return out
    def descr(s, m, A, d, n, what='descriptor'):
        """d is a descriptor object for objects of n words, itself typed by the table"""
        return [(what + ' exists', z3.And(d != 0, sel(A, d) == s.dsize(n) << 3)), (what + ' size', m.ow(d, s.o['Desc.size']) == n),
                (what + ' type', z3.And(m.ow(d, 0) != 0, m.ow(d, 0) == s.T(m, s.dsize(n))))]

def objframe(c, A):
    """objects of A keep their contents"""
    out = []
    k = z3.BitVec('k', 96)
    for n in ('o64', 'o8'):
        if n == 'o8' and 'Desc.tags' not in c.off: continue
        a, b = c.new.arr(n), c.old.arr(n)
        if z3.eq(a, b): continue
        out.append(('existing objects unchanged (%s)' % n, forall([k], z3.Implies(sel(A, z3.Extract(95, 32, k)) != 0, sel(a, k) == sel(b, k)), sel(a, k))))
    return out

def aok(A):
    b = z3.BitVec('b', 64)
    x = sel(A, b)
    return forall([b], z3.Implies(x != 0, z3.And(b & 7 == 0, z3.UGE(b, bv(1 << 32)), z3.ULT(b, bv(0x7f0000000000)), z3.ULT(x, bv(1 << 31)))), x)

def mono(A1, A2):
    b = z3.BitVec('b', 64)
    return forall([b], z3.Implies(sel(A1, b) != 0, sel(A2, b) == sel(A1, b)), sel(A2, b))

class Objs(Mut):
    """functions that make objects; the result is a new or an existing object"""
    modifies = ('o8', 'o16', 'o32', 'o64', 'r8', 'r16', 'r64')
    rawglobals = ('ggggc_descriptorDescriptors',)
    gctabs = ('@ggggc_descriptorDescriptors',)
    retkind = 'gc'
    LOCK = '@ggggc_descriptorDescriptorsLock'
    def setup(s, c, st):
        Mut.setup(s, c, st)
        st.ghost['unreg'] = (); st.ghost['reg'] = (); st.ghost['locked'] = bv(0)
        c.ex.gaddr('@ggggc_descriptorDescriptors')
        s.Tl = None
    def axioms(s, c):
        for x in Mut.axioms(s, c): yield x
        yield aok(A0())
    def loadkind(s, p): return 'gc' if p.kind in ('gc', 'gctab') else None
    def before(s, c): return c.A_before if getattr(c, 'call', False) else A0()
    def after(s, c): return c.gh['A']
    def apply_effects(s, c, st):
        c.A_before = st.ghost['A']
        st.ghost['A'] = z3.Const('A!d%d' % next(c.ex.fresh_n), AS)
        c.gh = st.ghost
    def on_store(s, ex, st, p, v):
        if p.kind == 'gctab' or s.slotfield(p): st.ghost['unreg'] = st.ghost['unreg'] + (p.z,)
    def slotfield(s, p): return False
    def at_safepoint(s, ex, st, roots):
        for a in st.ghost.get('unreg', ()):
            ex.oblige(st, 'a global pointer is registered before a possible collection', z3.Or([a == r for r in roots] + [a == r for r in st.ghost['reg']]), 'rooting')
    def table(s, c, m, A): return D(c).tabinv(m, A)
    def tabmono(s, c):
        d = D(c); a = z3.BitVec('a', 64)
        new, old = c.new.w(a), c.old.w(a)
        return ('table entries stay', forall([a], z3.Implies(z3.And(d.intab(a), old != 0), new == old), new, old))
    def rawframe(s, c):
        """of raw memory only the table changes"""
        k = z3.BitVec('k', 64)
        d = D(c)
        n, o = c.new.arr('r64'), c.old.arr('r64')
        return ('only the table changes', forall([k], z3.Implies(z3.Not(z3.ULT(k - d.tab(bv(0)), bv(8*d.N))), sel(n, k) == sel(o, k)), sel(n, k), sel(o, k)))
    def unreg_ok(s, c):
        if getattr(c, 'call', False): return []
        return [('every global pointer written is registered', z3.And([z3.Or([a == r for r in c.st.ghost['reg']]) for a in c.st.ghost['unreg']]))] + [('locks released', c.st.ghost['locked'] == bv(0))]
    def common(s, c):
        A1, A2 = s.before(c), s.after(c)
        return [('objects aligned', aok(A2)), ('objects stay', mono(A1, A2)), s.tabmono(c), s.rawframe(c)] + objframe(c, A1) + s.table(c, c.new, A2) + s.unreg_ok(c)
    def external(s, name):
        return {'@pthread_mutex_lock': s.lock, '@pthread_mutex_unlock': s.unlock}.get(name)
    def whichlock(s, ex, z):
        z = simp(z)
        if isnum(z): return ex.whichglobal(z.as_long())[0]
        return None
    def lock(s, ex, st, args, i):
        from ..sym import Ctx, MemView
        if s.whichlock(ex, args[0].z) != s.LOCK: return s.otherlock(ex, st, args[0].z, True)
        ex.oblige(st, 'the table is not locked twice', st.ghost['locked'] == bv(0), 'lock')
        st.ghost['locked'] = bv(1)
        # other threads may have added entries
        old = MemView(ex, st.mem.copy())
        st.mem.a['r64'] = ex.fresharr('r64')
        st.mem.a['o64'] = ex.fresharr('o64')
        if 'Desc.tags' in ex.off: st.mem.a['o8'] = ex.fresharr('o8')
        A = st.ghost['A']
        st.ghost['A'] = A2 = z3.Const('A!lk%d' % next(ex.fresh_n), AS)
        c = Ctx(ex, s, ex.args, old, MemView(ex, st.mem), st=st)
        for n, f in [('', mono(A, A2)), ('', aok(A2)), s.tabmono(c), s.rawframe(c)] + objframe(c, A) + s.table(c, c.new, A2): st.assume(f)
        st.ghost['lockmem'] = st.mem.copy()
        return V(bv(0, 32))
    def otherlock(s, ex, st, z, on): raise Break('another lock')
    def unlock(s, ex, st, args, i):
        from ..sym import Ctx, MemView
        if s.whichlock(ex, args[0].z) != s.LOCK: return s.otherlock(ex, st, args[0].z, False)
        ex.oblige(st, 'the table is locked when unlocked', st.ghost['locked'] == bv(1), 'lock')
        st.ghost['locked'] = bv(0)
        c = Ctx(ex, s, ex.args, MemView(ex, st.ghost['lockmem']), MemView(ex, st.mem), st=st)
        ex.oblige(st, 'no thread replaces a table entry another has made', s.tabmono(c)[1], 'lock')
        for n, f in s.table(c, c.new, st.ghost['A']): ex.oblige(st, 'at unlock: ' + n, f, 'lock')
        return V(bv(0, 32))

class MallocRawL(Alloc):
    """logical view of ggggc_mallocRaw (proved on raw pools in alloc.py): a new,
    young, zeroed object"""
    name = 'ggggc_mallocRaw'
    params = (('descriptor', 'rootslot'), ('size', 'int'))
    def requires(s, c): return [('size', z3.And(z3.UGE(c.z('size'), bv(1)), z3.ULT(c.z('size'), bv(LIM))))]
    def apply_effects(s, c, st):
        n = c.z('size') << 3
        A = st.ghost['A']
        r = c.ret.z
        st.assume(z3.And(r != 0, r & 7 == 0, z3.UGE(r, bv(1 << 32)), z3.ULT(r, bv(0x7f0000000000)), sel(A, r) == 0, sel(A0(), r) == 0))
        k = z3.BitVec('k', 96)
        b = z3.Extract(95, 32, k); o = z3.ZeroExt(32, z3.Extract(31, 0, k))
        for nm in ('o64', 'o8'):
            x = sel(c.new.arr(nm), k)
            st.assume(forall([k], z3.Implies(z3.And(b == r, z3.ULT(o, n)), x == 0), x))
        st.ghost['A'] = z3.Store(A, r, n)
        st.ghost['last'] = r
        if 'Pool.gen' in c.off:
            pool = r & bv(~(c.off['POOL_BYTES'] - 1) & (2**64 - 1))
            st.assume(c.new.b(pool + bv(c.off['Pool.gen'])) == 0)

class MallocL(MallocRawL):
    """logical view of ggggc_malloc"""
    name = 'ggggc_malloc'
    params = (('descriptor', 'gc'),)
    def requires(s, c):
        n = c.old.ow(c.z('descriptor'), c.off['Desc.size'])
        return [('a descriptor', c.z('descriptor') != 0), ('size', z3.And(z3.UGE(n, bv(1)), z3.ULT(n, bv(LIM))))]
    def apply_effects(s, c, st):
        n = c.old.ow(c.z('descriptor'), c.off['Desc.size']) << 3
        A = st.ghost['A']
        r = c.ret.z
        st.assume(z3.And(r != 0, r & 7 == 0, z3.UGE(r, bv(1 << 32)), z3.ULT(r, bv(0x7f0000000000)), sel(A, r) == 0, sel(A0(), r) == 0))
        k = z3.BitVec('k', 96)
        b = z3.Extract(95, 32, k); o = z3.ZeroExt(32, z3.Extract(31, 0, k))
        # the object is new: nothing was known of its contents before
        a = c.new.arr('o64'); x = sel(a, k)
        st.assume(forall([k], z3.Implies(z3.And(b == r, z3.ULT(o, n)), x == z3.If(o == 0, c.z('descriptor'), bv(0))), x))
        st.ghost['A'] = z3.Store(A, r, n)
        st.ghost['last'] = r
        if 'Pool.gen' in c.off:
            pool = r & bv(~(c.off['POOL_BYTES'] - 1) & (2**64 - 1))
            st.assume(c.new.b(pool + bv(c.off['Pool.gen'])) == 0)

class GlobalizeL(Contract):
    """the variables of the newest frame stay roots for ever; the frame itself is emptied"""
    name = 'ggggc_globalize'
    params = ()
    def apply_effects(s, c, st):
        ex = c.ex
        a = ex.gaddr('@ggggc_pointerStack')
        f = simp(ex.cell(st.mem, a, 64).z)
        if not isnum(f): raise Break('globalize without a frame')
        f = f.as_long()
        n = simp(ex.cell(st.mem, f + ex.off['PS.size'], 64).z)
        if not isnum(n): raise Break('frame of unknown size')
        ps = tuple(ex.cell(st.mem, f + ex.off['PS.pointers'] + 8*i, 64).z for i in range(n.as_long()))
        st.ghost['reg'] = st.ghost.get('reg', ()) + ps
        st.mem.c[(f + ex.off['PS.size'], 64)] = V(bv(0))

class YieldL(Contract):
    name = 'ggggc_yield'
    params = ()
    may_gc = True

class DD(Objs):
    """the descriptor of descriptors of a given size"""
    name = 'ggggc_allocateDescriptorDescriptor'
    params = (('size', 'int'),)
    recursive = True
    def requires(s, c):
        A = c.gh['A'] if getattr(c, 'call', False) else A0()
        return [('size', z3.ULT(c.z('size'), bv(D(c).N)))] + s.table(c, c.old, A)
    def ensures(s, c):
        d = D(c)
        n = d.clamp(c.z('size'))
        r = c.ret.z
        return [('the table entry', z3.And(r != 0, r == d.T(c.new, n)))] + s.common(c)

def layout(c, d, m, r, n, when, bit, word):
    """r describes exactly the words i with bit(c, i), and word 0"""
    q = z3.BitVec('q', 96)
    b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q)) - bv(d.body)
    x = sel(m.arr('o8' if d.ext else 'o64'), q)
    if d.ext: return ('layout', z3.Implies(when, forall([q], z3.Implies(z3.And(b == r, z3.ULT(off, n)), x == z3.If(z3.Or(off == 0, bit(c, off)), bv(0, 8), bv(1, 8))), x)))
    w = z3.LShR(off, 3)
    return ('layout', z3.Implies(when, forall([q], z3.Implies(z3.And(b == r, off & 7 == 0, z3.ULT(w, d.words(n))), x == word(c, w) | z3.If(w == 0, bv(1), bv(0))), x)))

class L(Objs):
    """a new descriptor for a size and a layout"""
    name = 'ggggc_allocateDescriptorL'
    params = (('size', 'int'), ('pointers', 'mobj'))
    def src(s, c, i):
        """word i of the given layout"""
        p = c.args['pointers']
        z = simp(p.z)
        if isnum(z): return c.old.cell(z.as_long() + 8*0) if i is None else z3.If(i == 0, c.old.cell(z.as_long()), bv(0))
        return c.old.ow(p.b if p.b is not None else p.z, i << 3)
    def requires(s, c):
        A = c.gh['A'] if getattr(c, 'call', False) else A0()
        d = D(c)
        p = c.args['pointers']
        z = simp(p.z)
        r = [('size', z3.ULE(c.z('size'), bv(c.off['WPP'])))] + s.table(c, c.old, A)
        need = z3.LShR(c.z('size') + 63, 6)
        need = z3.If(need == 0, bv(1), need)
        if isnum(z):
            if z.as_long(): r.append(('a layout word for every 64 words', z3.ULE(need, bv(1))))
        else: r.append(('a layout word for every 64 words', z3.Or(p.z == 0, z3.UGE(sel(A, p.z), need << 3))))
        return r
    def bit(s, c, i): return z3.LShR(s.src(c, z3.LShR(i, 6)), i & 63) & 1 == 1
    def ensures(s, c):
        d = D(c)
        n = d.clamp(c.z('size'))
        r = c.ret.z
        i = I()
        p = c.z('pointers')
        m = c.new
        out = [('not an old object', sel(s.before(c), r) == 0)] + s.layout(c, n, r)
        return out + s.common(c)
    def layout(s, c, n, r):
        d = D(c); m = c.new; i = I(); p = c.z('pointers')
        nn = z3.If(p == 0, bv(1), n)
        out = [('exists', z3.And(r != 0, sel(s.after(c), r) == (d.words(nn) + bv(d.body//8)) << 3)), ('size', m.ow(r, c.off['Desc.size']) == n),
               ('typed', z3.And(m.ow(r, 0) != 0, m.ow(r, 0) == d.T(m, d.clamp(d.words(nn) + bv(d.body//8)))))]
        out.append(layout(c, d, m, r, n, p != 0, s.bit, s.src))
        out.append(('no layout: no pointers', z3.Implies(p == 0, m.ob(r, bv(d.body)) == 1 if d.ext else m.ow(r, d.body) == 0)))
        return out

class LT(L):
    """with external tags: one tag byte per word"""
    class Loop(LoopInv):
        name = 'tags'
        def inv(s, c):
            con = c.con; d = D(c)
            r = c.gh['last']; p = c.z('pointers')
            si, cm, cp, pi = c.var('si').z, c.var('curM').z, c.var('curP').z, c.var('pi').z
            n = d.clamp(c.z('size'))
            yield 'position', z3.And(z3.ULE(si, n), pi == z3.LShR(si + 63, 6) - 1, cm == z3.If(si & 63 == 0, bv(0), bv(1) << (si & 63)), z3.Or(cm == 0, cp == con.src(c, pi)))
            q = z3.BitVec('q', 96)
            b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q)) - bv(d.body)
            x, y = sel(c.new.arr('o8'), q), sel(c.entry.arr('o8'), q)
            yield 'tags so far', forall([q], x == z3.If(z3.And(b == r, z3.ULT(off, si), con.bit(c, off)), bv(0, 8), y), x)
    loops = (Loop(),)

class PA(Objs):
    """pointer arrays: everything but header and length"""
    name = 'ggggc_allocateDescriptorPA'
    params = (('size', 'int'),)
    def setup(s, c, st):
        Objs.setup(s, c, st); st.ghost['vla'] = bv(0); st.ghost['vlan'] = bv(0)
    def on_fresh(s, c, z, what): newvla(s, c, z)
    def requires(s, c):
        A = c.gh['A'] if getattr(c, 'call', False) else A0()
        return [('size', z3.And(z3.UGE(c.z('size'), bv(2)), z3.ULE(c.z('size'), bv(c.off['WPP']))))] + s.table(c, c.old, A)
    class Loop(LoopInv):
        name = 'fill'
        def inv(s, c):
            z, n = c.gh['vla'], c.gh['vlan']
            i = c.var('i').z
            yield 'index', z3.ULE(i, z3.LShR(n, 3))
            q = z3.BitVec('q', 96)
            b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q))
            x, y = sel(c.new.arr('o64'), q), sel(c.entry.arr('o64'), q)
            yield 'filled', forall([q], z3.Implies(z3.And(b == z, off & 7 == 0, z3.ULT(off, i << 3)), x == bv(2**64 - 1)), x)
            yield 'nothing else', forall([q], z3.Or(b == z, x == y), x)
    loops = (Loop(),)
    def bit(s, c, i): return z3.Not(z3.Or(i == 0, i == bv(c.off['Arr.length']//8)))
    def word(s, c, w): return z3.If(w == 0, bv((2**64 - 1) & ~(1 | 1 << c.off['Arr.length']//8)), bv(2**64 - 1))
    def ensures(s, c):
        d = D(c); n = d.clamp(c.z('size')); r = c.ret.z; m = c.new
        return [('not an old object', sel(s.before(c), r) == 0), ('exists', z3.And(r != 0, sel(s.after(c), r) == d.dsize(n) << 3)), ('size', m.ow(r, c.off['Desc.size']) == n),
                layout(c, d, m, r, n, z3.BoolVal(True), s.bit, s.word)] + s.common(c)

def newvla(s, c, z):
    st = c.st
    A = st.ghost['A']
    st.assume(z3.And(sel(A, z) == 0, sel(A0(), z) == 0, z3.ULT(c.nbytes, bv(1 << 31))))
    st.ghost['A'] = z3.Store(A, z, c.nbytes)
    st.ghost['vla'] = z; st.ghost['vlan'] = c.nbytes

class DA(Objs):
    """data arrays: no pointers"""
    name = 'ggggc_allocateDescriptorDA'
    params = (('size', 'int'),)
    def requires(s, c):
        A = c.gh['A'] if getattr(c, 'call', False) else A0()
        return [('size', z3.ULE(c.z('size'), bv(c.off['WPP'])))] + s.table(c, c.old, A)
    def ensures(s, c):
        d = D(c); n = d.clamp(c.z('size')); r = c.ret.z; m = c.new
        return [('not an old object', sel(s.before(c), r) == 0), ('exists', z3.And(r != 0, sel(s.after(c), r) == (d.words(bv(1)) + bv(d.body//8)) << 3)), ('size', m.ow(r, c.off['Desc.size']) == n),
                ('no pointers', m.ob(r, bv(d.body)) == 1 if d.ext else m.ow(r, d.body) == 0)] + s.common(c)

class Tags(Objs):
    """a descriptor from a list of tags"""
    name = 'ggggc_allocateDescriptorT'
    params = (('size', 'int'), ('tags', 'mobj'))
    def requires(s, c):
        A = c.gh['A'] if getattr(c, 'call', False) else A0()
        n = D(c).clamp(c.z('size'))
        return [('size', z3.ULE(c.z('size'), bv(c.off['WPP']))), ('a tag for every word', z3.Or(c.z('tags') == 0, z3.UGE(sel(A, c.z('tags')), n)))] + s.table(c, c.old, A)
    def valid_objrange(s, c, p, n, what):
        A = c.st.ghost['A']
        return z3.And(z3.ULE(n, sel(A, p.b)), z3.ULE(p.o, sel(A, p.b) - n))
    def ensures(s, c):
        d = D(c); n = d.clamp(c.z('size')); r = c.ret.z; m = c.new; p = c.z('tags')
        nn = z3.If(p == 0, bv(1), n)
        q = z3.BitVec('q', 96)
        b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q)) - bv(d.body)
        x = sel(m.arr('o8'), q)
        return [('not an old object', sel(s.before(c), r) == 0), ('exists', z3.And(r != 0, sel(s.after(c), r) == (d.words(nn) + bv(d.body//8)) << 3)), ('size', m.ow(r, c.off['Desc.size']) == n),
                ('typed', z3.And(m.ow(r, 0) != 0, m.ow(r, 0) == d.T(m, d.clamp(d.words(nn) + bv(d.body//8))))),
                ('tags', z3.Implies(p != 0, forall([q], z3.Implies(z3.And(b == r, z3.ULT(off, n)), x == z3.If(off == 0, bv(0, 8), c.old.ob(p, off))), x))),
                ('no tags: no pointers', z3.Implies(p == 0, m.ob(r, bv(d.body)) == 1))] + s.common(c)

class PArray(Objs):
    """C07: pointer arrays"""
    name = 'ggggc_mallocPointerArray'
    params = (('sz', 'int'),)
    def words(s, c): return D(c).clamp(c.z('sz') + bv(c.off['Arr.as']//8))
    def requires(s, c):
        return [('size', z3.ULE(c.z('sz'), bv(c.off['WPP'] - 8)))] + s.table(c, c.old, A0())
    pa = PA()
    def ensures(s, c):
        d = D(c); r = c.ret.z; m = c.new; n = s.words(c)
        t = m.ow(r, 0)
        q = z3.BitVec('q', 96)
        b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q))
        x = sel(m.arr('o64'), q)
        A2 = s.after(c)
        return [('a new object', z3.And(r != 0, sel(s.before(c), r) == 0)), ('its size', sel(A2, r) == n << 3), ('length', m.ow(r, c.off['Arr.length']) == s.length(c)),
                ('room for every element', s.room(c, sel(A2, r))),
                ('zeroed elements', forall([q], z3.Implies(z3.And(b == r, z3.UGE(off, bv(c.off['Arr.as'])), z3.ULT(off, sel(A2, r))), x == 0), x)),
                ('its descriptor: size', z3.And(t != 0, m.ow(t, c.off['Desc.size']) == n))] + s.described(c, d, m, t, n) + s.common(c)
    def length(s, c): return c.z('sz')
    def room(s, c, n): return z3.UGE(n, (c.z('sz') << 3) + bv(c.off['Arr.as']))
    def described(s, c, d, m, t, n): return [(lambda x: ('its descriptor: ' + x[0], x[1]))(layout(c, d, m, t, n, z3.BoolVal(True), s.pa.bit, s.pa.word))]

class DArray(PArray):
    name = 'ggggc_mallocDataArray'
    params = (('nmemb', 'int'), ('size', 'int'))
    def bytes(s, c): return c.z('nmemb')*c.z('size')
    def words(s, c): return D(c).clamp(z3.LShR(s.bytes(c) + 7, 3) + bv(c.off['Arr.as']//8))
    def requires(s, c):
        big = z3.ZeroExt(64, c.z('nmemb'))*z3.ZeroExt(64, c.z('size'))
        return [('size', z3.And(big == z3.ZeroExt(64, s.bytes(c)), z3.ULE(s.bytes(c), bv((c.off['WPP'] - 8)*8))))] + s.table(c, c.old, A0())
    def length(s, c): return c.z('nmemb')
    def room(s, c, n): return z3.UGE(n, s.bytes(c) + bv(c.off['Arr.as']))
    def described(s, c, d, m, t, n): return [('its descriptor: no pointers', m.ob(t, bv(d.body)) == 1 if d.ext else m.ow(t, d.body) == 0)]

class Slot(Objs):
    """C22: one descriptor for each slot"""
    name = 'ggggc_allocateDescriptorSlot'
    params = (('slot', 'slotp'),)
    globals_mod = ('slotlock',)
    def slotfield(s, p):
        if p.kind != 'slot': return False
        z = z3.simplify(p.z - z3.BitVec('arg_slot', 64))
        return isnum(z) and z.as_long() == s.ex_off['Slot.descriptor']
    def loadkind(s, p): return 'gc' if s.slotfield(p) else Objs.loadkind(s, p)
    def setup(s, c, st):
        Objs.setup(s, c, st); st.ghost['slocked'] = bv(0); st.ghost['at_lock'] = bv(0)
    def valid(s, c, z, size, what):
        a = c.args['slot'].z if 'slot' in c.args else None
        return z3.Or([z3.And(z == a + bv(c.off['Slot.' + f])) for f in ('descriptor', 'size', 'pointers')]) if size == 8 else Mut.valid(s, c, z, size, what)
    def f(s, c, m, n): return m.w(c.z('slot') + bv(c.off['Slot.' + n]))
    def slotok(s, c, m, A, msk=None):
        """the slot's descriptor, if there is one, describes the slot's type"""
        d = D(c); n = d.clamp(s.f(c, m, 'size')); p = s.f(c, m, 'pointers'); r = s.f(c, m, 'descriptor')
        word = lambda c, w: z3.If(w == 0, p, bv(0))
        bit = lambda c, i: z3.And(z3.ULT(i, bv(64)), z3.LShR(p, i & 63) & 1 == 1)
        return [('slot: descriptor exists', z3.Or(r == 0, z3.And(sel(A, r) == d.dsize(n) << 3, m.ow(r, c.off['Desc.size']) == n))),
                (lambda x: ('slot: ' + x[0], x[1]))(layout(c, d, m, r, n, r != 0, bit, word))]
    def requires(s, c):
        A = c.gh['A'] if getattr(c, 'call', False) else A0()
        z = c.z('slot')
        return [('slot', z3.And(z3.UGE(z, bv(1 << 32)), z3.ULT(z, bv(0x7d0000000000)), z & 7 == 0, z3.ULE(s.f(c, c.old, 'size'), bv(64)))), ('a big enough layout word', z3.ULE(s.f(c, c.old, 'size'), bv(64)))] + s.slotok(c, c.old, A) + s.table(c, c.old, A)
    def rawframe(s, c):
        k = z3.BitVec('k', 64); d = D(c)
        n, o = c.new.arr('r64'), c.old.arr('r64')
        return ('only the table and the slot change', forall([k], z3.Implies(z3.Not(z3.Or(z3.ULT(k - d.tab(bv(0)), bv(8*d.N)), k == c.z('slot') + bv(c.off['Slot.descriptor']))), sel(n, k) == sel(o, k)), sel(n, k), sel(o, k)))
    def slotmono(s, c): return ('a slot keeps its descriptor', z3.Or(s.f(c, c.old, 'descriptor') == 0, s.f(c, c.new, 'descriptor') == s.f(c, c.old, 'descriptor')))
    def otherlock(s, ex, st, z, on):
        from ..sym import Ctx, MemView
        sl = ex.args['slot'].z
        ex.oblige(st, "the slot's own lock", z == sl + bv(ex.off['Slot.lock']), 'lock')
        if on:
            ex.oblige(st, 'the slot is not locked twice', st.ghost['slocked'] == bv(0), 'lock')
            st.ghost['slocked'] = bv(1)
            old = MemView(ex, st.mem.copy())
            for n in ('r64', 'o64') + (('o8',) if 'Desc.tags' in ex.off else ()): st.mem.a[n] = ex.fresharr(n)
            A = st.ghost['A']
            st.ghost['A'] = A2 = z3.Const('A!lk%d' % next(ex.fresh_n), AS)
            c = Ctx(ex, s, ex.args, old, MemView(ex, st.mem), st=st)
            for n, f in [('', mono(A, A2)), ('', aok(A2)), s.tabmono(c), s.rawframe(c), s.slotmono(c)] + objframe(c, A) + s.table(c, c.new, A2) + s.slotok(c, c.new, A2): st.assume(f)
            st.ghost['at_lock'] = s.f(c, c.new, 'descriptor')
        else:
            ex.oblige(st, 'the slot is locked when unlocked', st.ghost['slocked'] == bv(1), 'lock')
            st.ghost['slocked'] = bv(0)
            c = Ctx(ex, s, ex.args, ex.mem0view, MemView(ex, st.mem), st=st)
            ex.oblige(st, 'no thread replaces the descriptor another has made', z3.Or(st.ghost['at_lock'] == 0, s.f(c, c.new, 'descriptor') == st.ghost['at_lock']), 'lock')
            for n, f in s.slotok(c, c.new, st.ghost['A']): ex.oblige(st, 'at unlock: ' + n, f, 'lock')
        return V(bv(0, 32))
    def ensures(s, c):
        r = c.ret.z
        out = [('the descriptor of the slot', z3.And(r != 0, r == s.f(c, c.new, 'descriptor'))), s.slotmono(c)] + s.slotok(c, c.new, s.after(c)) + s.common(c)
        if not getattr(c, 'call', False): out.append(('slot unlocked', c.st.ghost['slocked'] == bv(0)))
        return out

class MallocSlot(Slot):
    """C05/C22: objects of a slot's type share its descriptor"""
    name = 'ggggc_mallocSlot'
    def requires(s, c): return Slot.requires(s, c) + [('size', z3.UGE(s.f(c, c.old, 'size'), bv(1)))]
    def ensures(s, c):
        r = c.ret.z; m = c.new; d = D(c)
        q = z3.BitVec('q', 96)
        b, off = z3.Extract(95, 32, q), z3.ZeroExt(32, z3.Extract(31, 0, q))
        x = sel(m.arr('o64'), q)
        n = d.clamp(s.f(c, m, 'size')) << 3
        return [('a new object', z3.And(r != 0, sel(s.before(c), r) == 0, sel(s.after(c), r) == n)), ("the slot's type", z3.And(m.ow(r, 0) != 0, m.ow(r, 0) == s.f(c, m, 'descriptor'))), s.slotmono(c),
                ('zeroed', forall([q], z3.Implies(z3.And(b == r, off != 0, z3.ULT(off, n)), x == 0), x))] + s.slotok(c, m, s.after(c)) + s.common(c)

def callees(*names):
    r = {'@ggggc_mallocRaw': MallocRawL(), '@ggggc_malloc': MallocL(), '@ggggc_globalize': GlobalizeL(), '@ggggc_yield': YieldL()}
    for K in (DD, L, PA, DA, Slot): r['@' + K.name] = K()
    return r
ALL = callees()
KEEP = [n[1:] for n in ALL]
