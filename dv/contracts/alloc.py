"""Allocation in the generational collector (C05, C02): pools as raw memory.

A pool is named by its address p (aligned to the pool size).  Ghosts:
  P   set of pools of the generation(s) in question (array address -> Bool)
  S   set of addresses of objects in them
Well-formedness of every pool, WF, and of its first-object table, FO, are the
data-structure invariants."""
import z3
from ..sym import Contract, bv, V, LoopInv, HEAP_LO, POOL_HI, FA

BS = z3.ArraySort(z3.BitVecSort(64), z3.BoolSort())
def P0(): return z3.Const('P!0', BS)
def S0(): return z3.Const('S!0', BS)
def sel(a, i): return z3.Select(a, i)

def pat(a, i):
    # a pattern may not hold an if-then-else; goals need none anyway
    return [sel(a, i)] if z3.is_const(a) and a.decl().arity() == 0 else []

class G:
    """the pool layout in a memory"""
    def __init__(s, c, m=None):
        s.c, s.o = c, c.off
        s.m = m if m is not None else c.new
    PB = property(lambda s: s.o['POOL_BYTES'])
    def of(s, a): return a & bv(~(s.PB - 1) & (2**64 - 1))
    def fld(s, p, f): return p + bv(s.o['Pool.' + f])
    def get(s, p, f): return s.m.w(s.fld(p, f))
    def start(s, p): return s.fld(p, 'start')
    def wf(s, p, P, next=True):
        o = s.o
        f, e = s.get(p, 'free'), s.get(p, 'end')
        r = [p & bv(s.PB - 1) == 0, z3.UGE(p, bv(HEAP_LO)), z3.ULT(p, bv(POOL_HI)), e == p + bv(s.PB),
             z3.UGE(f, s.start(p)), z3.ULE(f, e), f & 7 == 0]
        if next: r.append(z3.Or(s.get(p, 'next') == 0, sel(P, s.get(p, 'next'))))
        return z3.And(r)
    def allwf(s, P, next=True):
        p = z3.BitVec('p', 64)
        return FA([p], z3.Implies(sel(P, p), s.wf(p, P, next)), patterns=pat(P, p))
    def card(s, a): return z3.LShR(a & bv(s.PB - 1), s.o['CARD_SIZE'])
    def first(s, a):
        """address of the first object of a's card according to the table"""
        base = a & bv(~((1 << s.o['CARD_SIZE']) - 1) & (2**64 - 1))
        return base + (z3.ZeroExt(48, s.m.h(s.fld(s.of(a), 'firstObject') + (s.card(a) << 1))) << 3)
    def isobj(s, S, a):
        """a is an object, or the (existing) place of the next one"""
        p = s.of(a)
        return z3.Or(sel(S, a), z3.And(a == s.get(p, 'free'), a != p + bv(s.PB)))
    def fo(s, P, S, this=None):
        """first-object tables: for every object and every next free place of the pools P
        (`this`: the same, with what is said about that pool as a conjunct of its own)"""
        a = z3.BitVec('a', 64); p = z3.BitVec('p', 64)
        def at(a):
            q = s.of(a)
            f = s.first(a)
            return z3.And(z3.ULE(f, a), z3.UGE(f, s.start(q)), s.isobj(S, f))
        fr = s.get(p, 'free')
        if this is not None:
            f0 = s.get(this, 'free')
            return [('first-object table: objects', FA([a], z3.Implies(z3.And(sel(P, s.of(a)), sel(S, a)), at(a)), patterns=pat(S, a))),
                ('first-object table: free space of this pool', z3.Implies(z3.And(sel(P, this), f0 != this + bv(s.PB)), at(f0))),
                ('first-object table: free space of other pools', FA([p], z3.Implies(z3.And(p != this, sel(P, p), fr != p + bv(s.PB)), at(fr)), patterns=pat(P, p)))]
        return [('first-object table: objects', FA([a], z3.Implies(z3.And(sel(P, s.of(a)), sel(S, a)), at(a)), patterns=pat(S, a))),
                ('first-object table: free space', FA([p], z3.Implies(z3.And(sel(P, p), fr != p + bv(s.PB)), at(fr)), patterns=pat(P, p)))]
    def sok(s, P, S):
        """objects lie below the free pointers of their pools"""
        a = z3.BitVec('a', 64)
        q = s.of(a)
        return FA([a], z3.Implies(sel(S, a), z3.And(sel(P, q), a & 7 == 0, z3.UGE(a, s.start(q)), z3.ULT(a, s.get(q, 'free')))), patterns=pat(S, a))

def unchanged(c, name, touched, old=None, new=None):
    """every cell of memory class `name` not selected by touched(address) is unchanged"""
    k = z3.BitVec('k', 64)
    n, o = (new or c.new).arr(name), (old or c.old).arr(name)
    return FA([k], z3.Implies(z3.Not(touched(k)), sel(n, k) == sel(o, k)), patterns=[sel(n, k)])

def rawzero(m, lo, nwords):
    k = z3.BitVec('k', 64)
    x = sel(m.arr('r64'), k)
    return FA([k], z3.Implies(z3.And(z3.ULT(k - lo, nwords << 3), k & 7 == lo & 7), x == 0), patterns=[x])

def inpage(c, k, p): return z3.ULT(k - p, bv(c.off['POOL_BYTES']))

class Raw(Contract):
    """base: code that works on pools as raw memory"""
    def valid(s, c, z, size, what):
        o = c.off
        g = G(c)
        P = c.st.ghost.get('P')
        if P is None: return None
        p = g.of(z)
        off = z - p
        if size == 8: r = [off == bv(o['Pool.' + f]) for f in ('next', 'free', 'end', 'survivors') ] + [z3.UGE(off, bv(o['Pool.start']))]
        elif size == 2 and 'Pool.firstObject' in o: r = [z3.And(z3.UGE(off, bv(o['Pool.firstObject'])), z3.ULT(off, bv(o['Pool.firstObject'] + 2*o['CARDS'])))]
        elif size == 1 and 'Pool.gen' in o: r = [off == bv(o['Pool.gen']), z3.And(z3.UGE(off, bv(o['Pool.remember'])), z3.ULT(off, bv(o['Pool.remember'] + o['CARDS'])))]
        else: return z3.BoolVal(False)
        return z3.And(sel(P, p), z3.Or(r))
    def valid_range(s, c, z, n, what):
        P = c.st.ghost.get('P')
        if P is None: return None
        g = G(c)
        o = c.off
        p = g.of(z); off = z - p
        r = [z3.And(z3.UGE(off, bv(o['Pool.start'])), z3.ULE(n, bv(g.PB)), z3.ULE(off + n, bv(g.PB)))]
        if 'Pool.remember' in o: r.append(z3.And(z3.UGE(off, bv(o['Pool.remember'])), z3.ULE(n, bv(o['CARDS'])), z3.ULE(off + n, bv(o['Pool.remember'] + o['CARDS']))))
        return z3.And(sel(P, p), z3.Or(r))

# ---------------------------------------------------------------- new pools
class NewPool(Raw):
    """a pool nobody else has; null only if it may fail"""
    name = 'ggggc_newPool'
    params = (('mustSucceed', 'int'),)
    modifies = ('r64',)
    def post(s, c):
        g = G(c)
        r = c.ret.z
        P = s.before(c)
        return [('a pool unless it may fail', z3.Or(r != 0, s.must(c))),
                ('not a pool in use', z3.Or(r == 0, z3.Not(sel(P, r)))),
                ('empty', z3.Or(r == 0, z3.And(g.wf(r, P, False), g.get(r, 'next') == 0, g.get(r, 'free') == g.start(r)))),
                ('frame', unchanged(c, 'r64', lambda k: z3.And(r != 0, inpage(c, k, r))))]
    def must(s, c): return c.z('mustSucceed') == 0
    def before(s, c):
        """the pools before the call"""
        return c.P_before if getattr(c, 'call', False) else P0()
    def apply_effects(s, c, st):
        P = c.P_before = st.ghost['P']
        st.ghost['P'] = z3.If(c.ret.z != 0, z3.Store(P, c.ret.z, z3.BoolVal(True)), P)
    def ensures(s, c): return s.post(c)

class NewPoolGen(NewPool):
    name = 'ggggc_newPoolGen'
    params = (('gen', 'int'), ('mustSucceed', 'int'))
    modifies = ('r64', 'r8', 'r16')
    def setup(s, c, st): st.ghost['P'] = P0()
    def requires(s, c): return [('generation', z3.ULT(c.z('gen'), bv(c.off['GENS'], 8)))]
    # the new pool only
    def valid(s, c, z, size, what): return z3.And(Raw.valid(s, c, z, size, what), z3.Not(sel(P0(), G(c).of(z))))
    def valid_range(s, c, z, n, what): return z3.And(Raw.valid_range(s, c, z, n, what), z3.Not(sel(P0(), G(c).of(z))))
    def ensures(s, c):
        r = c.ret.z
        g = G(c)
        out = s.post(c)
        if 'Pool.gen' in c.off:
            k = z3.BitVec('k', 64)
            out += [('generation recorded', z3.Or(r == 0, c.new.b(g.fld(r, 'gen')) == c.z('gen'))),
                    ('nothing remembered', z3.Implies(z3.And(r != 0, c.z('gen') != 0), FA([k], z3.Implies(z3.ULT(k - g.fld(r, 'remember'), bv(c.off['CARDS'])), c.new.b(k) == 0), patterns=[c.new.b(k)]))),
                    ('first object of the first card', z3.Or(r == 0, g.first(g.start(r)) == g.start(r))),
                    ('frame, bytes', unchanged(c, 'r8', lambda k: z3.And(r != 0, inpage(c, k, r)))),
                    ('frame, table', unchanged(c, 'r16', lambda k: z3.And(r != 0, inpage(c, k, r))))]
        return out

class NewPoolGenProto(NewPool):
    """the callback that grows a pool list: a pool of the same generation, or null"""
    name = 'newPoolGenProto'
    params = (('proto', 'raw'),)
    modifies = ('r64', 'r8', 'r16')
    def setup(s, c, st): st.ghost['P'] = P0()
    def requires(s, c):
        g = G(c, c.old)
        return [('a pool', sel(P0(), c.z('proto'))), ('aligned', z3.And(c.z('proto') & bv(g.PB - 1) == 0, z3.UGE(c.z('proto'), bv(HEAP_LO)), z3.ULT(c.z('proto'), bv(POOL_HI))))] + ([('generation', z3.ULT(c.old.b(g.fld(c.z('proto'), 'gen')), bv(c.off['GENS'], 8)))] if 'Pool.gen' in c.off else [])
    def must(s, c): return z3.BoolVal(True)
    def ensures(s, c):
        r = c.ret.z; g = G(c)
        out = s.post(c)
        if 'Pool.gen' in c.off: out.append(('same generation', z3.Or(r == 0, c.new.b(g.fld(r, 'gen')) == c.old.b(g.fld(c.z('proto'), 'gen')))))
        return out

class MallocGen1(Raw):
    name = 'ggggc_mallocGen1'
    params = (('size', 'int'), ('gen', 'int'))
    modifies = ('r64', 'r8', 'r16')
    rawglobals = ('ggggc_pools', 'ggggc_gens')
    def gslot(s, c, which='ggggc_pools'):
        return bv(c.ex.gaddr('@' + which)) + (z3.ZeroExt(56, c.z('gen')) << 3)
    def setup(s, c, st):
        st.ghost['P'] = P0(); st.ghost['S'] = S0()
        c.ex.gaddr('@ggggc_pools'); c.ex.gaddr('@ggggc_gens')
    def requires(s, c):
        g = G(c, c.old)
        P, S = P0(), S0()
        cur = c.old.w(s.gslot(c))
        return [('size', z3.And(z3.UGE(c.z('size'), bv(1)), z3.ULT(c.z('size'), bv(1 << 40)))),
                ('generation', z3.And(c.z('gen') != 0, z3.ULT(c.z('gen'), bv(c.off['GENS'], 8)))),
                ('the allocation pool is a pool', z3.Or(cur == 0, sel(P, cur))),
                ('pools well-formed', g.allwf(P)), ('objects', g.sok(P, S))] + g.fo(P, S)
    class L(LoopInv):
        name = 'retry'
        ghosts = ('P',)
        def ghost_init(s, c): return {'P': P0()}
        def ghost_step(s, c): return {'P': c.gh['P']}
        def ghost_fresh(s, ex, g, old): return z3.Const('P!l', BS)
        def inv(s, c):
            g = G(c); con = c.con
            P, S = c.gh['P'], S0()
            p = z3.BitVec('p', 64)
            cur = c.new.w(con.gslot(c))
            yield 'the allocation pool is a pool', z3.Or(cur == 0, sel(P, cur))
            yield 'pools well-formed', g.allwf(P)
            yield 'objects', g.sok(P, S)
            for x in g.fo(P, S): yield x
            yield 'old pools', FA([p], z3.Implies(sel(P0(), p), sel(P, p)), patterns=[sel(P0(), p)])
            yield 'same memory', unchanged(c, 'r64', lambda k: z3.Or(k == con.gslot(c), k == con.gslot(c, 'ggggc_gens'), z3.And(sel(P, g.of(k)), z3.Not(sel(P0(), g.of(k))))))
    loops = (L(),)
    def ensures(s, c):
        g = G(c); P = c.gh['P']; S = S0()
        r = c.ret.z
        p = g.of(r)
        n = c.z('size') << 3
        S2 = z3.If(r == 0, S, z3.Store(S, r, z3.BoolVal(True)))
        q = z3.BitVec('q', 64)
        return [('inside a pool', z3.Or(r == 0, z3.And(sel(P, p), z3.UGE(r, g.start(p)), r & 7 == 0, z3.ULE(r + n, p + bv(g.PB)), z3.ULE(n, bv(g.PB))))),
                ('space taken is exactly the object', z3.Or(r == 0, g.get(p, 'free') == r + n)),
                ('the space was free', z3.Or(r == 0, z3.Not(sel(P0(), p)), r == c.old.w(g.fld(p, 'free')))),
                ('end mark', z3.Or(r == 0, r + n == p + bv(g.PB), c.new.w(r + n) == 0)),
                ('pools well-formed', g.allwf(P)), ('objects', g.sok(P, S2))] + g.fo(P, S2, p) + [
                ('frame', unchanged(c, 'r64', lambda k: z3.Or(k == s.gslot(c), k == s.gslot(c, 'ggggc_gens'), z3.And(r != 0, k == g.fld(p, 'free')), z3.And(r != 0, z3.Not(z3.ULT(k - p, r - p)), inpage(c, k, p), z3.UGE(k, r)), z3.And(sel(P, g.of(k)), z3.Not(sel(P0(), g.of(k)))))))]

class Collect0(Raw):
    """a collection, seen by the allocator: the pools are rearranged, the
    allocation pool is still one, and generation 0 is well-formed.  (That live
    objects are preserved is C01-C04 and C10; the allocator does not rely on it.)"""
    name = 'ggggc_collect0'
    params = (('gen', 'int'),)
    may_gc = True
    modifies = ('r64', 'r8', 'r16', 'r32')
    globals_mod = ('ggggc_pool0', 'ggggc_gen0')
    def apply_effects(s, c, st):
        st.ghost['P'] = z3.Const('P!c%d' % next(c.ex.fresh_n), BS)
        st.ghost['collected'] = z3.BoolVal(True)
        c.gh = st.ghost
    def ensures(s, c):
        g = G(c); P = c.gh['P']
        cur = c.new.g('ggggc_pool0')
        return [('the allocation pool is a pool', z3.Or(cur == 0, sel(P, cur))), ('pools well-formed', g.allwf(P))]

class Yield(Collect0):
    name = 'ggggc_yield'
    params = ()

class MallocRaw(Raw):
    """C05: where a new object may lie, that it is zeroed, and that nothing else changes"""
    name = 'ggggc_mallocRaw'
    params = (('descriptor', 'rootslot'), ('size', 'int'))
    modifies = ('r64', 'r8', 'r16', 'r32')
    globals_mod = ('ggggc_pool0', 'ggggc_gen0')
    may_gc = True
    balanced = True
    retkind = None
    def cellkind(s, n, off): return None
    def setup(s, c, st):
        st.ghost['P'] = st.ghost['Q'] = P0(); st.ghost['collected'] = z3.BoolVal(False); st.ghost['M'] = c.old.arr('r64')
    def requires(s, c):
        g = G(c, c.old)
        cur = c.old.g('ggggc_pool0')
        return [('size', z3.And(z3.UGE(c.z('size'), bv(1)), z3.ULT(c.z('size'), bv(1 << 40)))),
                ('the allocation pool is a pool', z3.Or(cur == 0, sel(P0(), cur))),
                ('pools well-formed', g.allwf(P0()))]
    class L(LoopInv):
        name = 'retry'
        ghosts = ('P', 'Q', 'M', 'collected')
        def ghost_init(s, c): return {'P': P0(), 'Q': P0(), 'M': c.new.arr('r64'), 'collected': z3.BoolVal(False)}
        def ghost_step(s, c): return {'P': c.gh['P'], 'Q': c.gh['P'], 'M': c.new.arr('r64'), 'collected': c.gh['collected']}
        def ghost_fresh(s, ex, g, old):
            return z3.Const('P!l', BS) if g in 'PQ' else z3.Bool('collected!l') if g == 'collected' else z3.Const('M!l', z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64)))
        def inv(s, c):
            g = G(c); P = c.gh['P']
            p = z3.BitVec('p', 64)
            cur = c.new.g('ggggc_pool0')
            yield 'the allocation pool is a pool', z3.Or(cur == 0, sel(P, cur))
            yield 'pools well-formed', g.allwf(P)
            yield 'memory at the start of the attempt', c.gh['M'] == c.new.arr('r64')
            yield 'until a collection the pools stay', z3.Or(c.gh['collected'], FA([p], z3.Implies(sel(P0(), p), sel(P, p)), patterns=[sel(P0(), p)]))
            k = z3.BitVec('k', 64)
            yield 'until a collection nothing in them changes', z3.Or(c.gh['collected'], FA([k], z3.Implies(sel(P0(), g.of(k)), sel(c.gh['M'], k) == sel(c.old.arr('r64'), k)), patterns=[sel(c.gh['M'], k)]))
    loops = (L(),)
    def ensures(s, c):
        g = G(c); P = c.gh['P']; M = c.gh['M']; Q = c.gh['Q']
        r = c.ret.z
        p = g.of(r)
        n = c.z('size') << 3
        k = z3.BitVec('k', 64)
        return [('inside a pool', z3.And(sel(P, p), z3.UGE(r, g.start(p)), r & 7 == 0, z3.ULE(n, bv(g.PB)), z3.ULE(r + n, p + bv(g.PB)))),
                ('the allocation pool', c.new.g('ggggc_pool0') == p),
                ('space taken is exactly the object', g.get(p, 'free') == r + n),
                ('the space was free', z3.Or(r == sel(M, g.fld(p, 'free')), z3.And(z3.Not(sel(Q, p)), r == g.start(p)))),
                ('zeroed', rawzero(c.new, r, c.z('size'))),
                ('nothing else changes', FA([k], z3.Implies(z3.And(z3.Not(z3.ULT(k - r, n)), k != g.fld(p, 'free'), sel(Q, g.of(k))),
                    sel(c.new.arr('r64'), k) == sel(M, k)), patterns=[sel(c.new.arr('r64'), k)])),
                ('until a collection nothing else changed', z3.Or(c.gh['collected'], FA([k], z3.Implies(z3.And(sel(P0(), g.of(k)), z3.Not(z3.ULT(k - r, n)), k != g.fld(p, 'free')),
                    sel(c.new.arr('r64'), k) == sel(c.old.arr('r64'), k)), patterns=[sel(c.new.arr('r64'), k)]))),
                ('pools well-formed', g.allwf(P))]
    def apply_effects(s, c, st):
        assert z3.eq(st.ghost['P'], P0())
        n = next(c.ex.fresh_n)
        W64 = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64))
        st.ghost.update(P=z3.Const('P!m%d' % n, BS), Q=z3.Const('Q!m%d' % n, BS), M=z3.Const('M!m%d' % n, W64), collected=z3.Bool('collected!m%d' % n))
        c.gh = st.ghost

class Malloc(Raw):
    """C05 for described objects"""
    name = 'ggggc_malloc'
    params = (('descriptor', 'gc'),)
    modifies = ('r64', 'r8', 'r16', 'r32')
    globals_mod = ('ggggc_pool0', 'ggggc_gen0')
    may_gc = True
    balanced = True
    def setup(s, c, st):
        st.ghost['P'] = P0(); st.ghost['collected'] = z3.BoolVal(False)
        st.ghost['Q'] = P0(); st.ghost['M'] = c.old.arr('r64')
    def size(s, c): return c.old.ow(c.z('descriptor'), c.off['Desc.size'])
    def requires(s, c):
        g = G(c, c.old)
        cur = c.old.g('ggggc_pool0')
        return [('a descriptor', c.z('descriptor') != 0), ('size', z3.And(z3.UGE(s.size(c), bv(1)), z3.ULT(s.size(c), bv(1 << 40)))),
                ('the allocation pool is a pool', z3.Or(cur == 0, sel(P0(), cur))),
                ('pools well-formed', g.allwf(P0()))]
    def valid_obj(s, c, p, size, store):
        return z3.And(p.b == c.z('descriptor'), p.o == bv(c.off['Desc.size'])) if not store else z3.BoolVal(False)
    def ensures(s, c):
        g = G(c); P = c.gh['P']
        r = c.ret.z; p = g.of(r); n = s.size(c) << 3
        k = z3.BitVec('k', 64)
        return [('inside a pool', z3.And(sel(P, p), z3.UGE(r, g.start(p)), r & 7 == 0, z3.ULE(n, bv(g.PB)), z3.ULE(r + n, p + bv(g.PB)))),
                ('described by its descriptor', c.new.w(r) == c.z('descriptor')),
                ('otherwise zeroed', rawzero(c.new, r + 8, s.size(c) - 1)),
                ('space taken is exactly the object', g.get(p, 'free') == r + n),
                ('the space was free', z3.Or(r == sel(c.gh['M'], g.fld(p, 'free')), z3.And(z3.Not(sel(c.gh['Q'], p)), r == g.start(p)))),
                ('until a collection nothing else changed', z3.Or(c.gh['collected'], FA([k], z3.Implies(z3.And(sel(P0(), g.of(k)), z3.Not(z3.ULT(k - r, n)), k != g.fld(p, 'free')),
                    sel(c.new.arr('r64'), k) == sel(c.old.arr('r64'), k)), patterns=[sel(c.new.arr('r64'), k)]))),
                ('pools well-formed', g.allwf(P))]
