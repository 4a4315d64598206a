"""Memory pools (C08, C04, C20): the pool allocator, its free list and pool lists.

The free list is protected by a lock; its representation invariant is assumed
when the lock is taken (for an arbitrary list: other threads may have changed
it) and has to be re-established before the lock is released.  The list is
described by ghosts: n pools nth(0..n-1), and idx, the inverse of nth.
P is the set of pools owned by threads and generations; no pool of the free
list is in it."""
import z3
from ..sym import Contract, bv, V, LoopInv, HEAP_LO, POOL_HI, Break, EXTERNALS, simp, isnum, forall, FA
from .alloc import Raw, G, P0, BS, sel, unchanged, inpage, NewPool

W64 = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64))
I = lambda: z3.BitVec('i', 64)

class Seq:
    """a sequence of pools: length, nth: position -> pool, idx: pool -> position"""
    def __init__(s, n, nth, idx): s.n, s.nth, s.idx = n, nth, idx
    @staticmethod
    def const(name):
        a, b = z3.Const(name + '_nth', W64), z3.Const(name + '_idx', W64)
        r = Seq(z3.BitVec(name + '_n', 64), lambda i: sel(a, i), lambda p: sel(b, p))
        r.a = a
        return r
    def tail1(s):
        """without its first element"""
        return Seq(s.n - 1, lambda i: s.nth(i + 1), lambda p: s.idx(p) - 1)
    def cat(s, t):
        return Seq(s.n + t.n, lambda i: z3.If(z3.ULT(i, s.n), s.nth(i), t.nth(i - s.n)),
                   lambda p: z3.If(z3.And(z3.ULT(s.idx(p), s.n), s.nth(s.idx(p)) == p), s.idx(p), s.n + t.idx(p)))
    def ite(s, c, t):
        return Seq(z3.If(c, s.n, t.n), lambda i: z3.If(c, s.nth(i), t.nth(i)), lambda p: z3.If(c, s.idx(p), t.idx(p)))
    def has(s, p): return z3.And(z3.ULT(s.idx(p), s.n), s.nth(s.idx(p)) == p)

def allq(f, pat=None):
    i = I()
    return FA([i], f(i), patterns=[pat(i)] if pat else [])

def chain(g, q, first, last, owned=None, free_of=None, pats=True, aligned=True):
    """[(name, formula)]: q is the pool list starting at `first` and ending at `last`"""
    PB = g.PB
    pat = q.nth if pats else None
    r = [('length', z3.ULT(q.n, bv(1 << 40))),
         ('ends', z3.And(z3.Or(first == 0, q.n != 0), z3.Or(q.n == 0, z3.And(first == q.nth(bv(0)), first != 0, last == q.nth(q.n - 1))))),
         ('links', allq(lambda i: z3.Implies(z3.ULT(i, q.n), g.get(q.nth(i), 'next') == z3.If(i == q.n - 1, bv(0), q.nth(i + 1))), pat)),
         ('pools', allq(lambda i: z3.Implies(z3.ULT(i, q.n), z3.And(q.nth(i) & bv(PB - 1 if aligned else 7) == 0, z3.UGE(q.nth(i), bv(HEAP_LO)), z3.ULT(q.nth(i), bv(POOL_HI)))), pat)),
         ('each once', allq(lambda i: z3.Implies(z3.ULT(i, q.n), q.idx(q.nth(i)) == i), pat))]
    if owned is not None: r.append(('owned', allq(lambda i: z3.Implies(z3.ULT(i, q.n), sel(owned, q.nth(i))), pat)))
    if free_of is not None: r.append(('not owned', allq(lambda i: z3.Implies(z3.ULT(i, q.n), z3.Not(sel(free_of, q.nth(i)))), pat)))
    return r

class Locked(Raw):
    """code that takes the free-list lock"""
    LOCK = '@freePoolsLock'
    def fl(s): return Seq.const('free')
    def after(s, c): raise NotImplementedError
    def mutex(s, ex, args):
        z = simp(args[0].z)
        if not isnum(z): raise Break('lock of an unknown mutex')
        return ex.whichglobal(z.as_long())[0]
    def external(s, name):
        if name == '@pthread_mutex_lock': return s.lock
        if name == '@pthread_mutex_unlock': return s.unlock
        return None
    def lock(s, ex, st, args, i):
        from ..sym import Ctx, MemView
        m = s.mutex(ex, args)
        if m == s.LOCK:
            ex.oblige(st, 'the free list is not locked twice', st.ghost['locked'] == bv(0), 'lock')
            st.ghost['locked'] = bv(1)
            for n in ('freePoolsHead', 'freePoolsTail'):
                st.mem.c[(ex.gaddr('@' + n), 64)] = V(ex.fresh(n))
            c = Ctx(ex, s, s.args_of(ex), ex.mem0view, MemView(ex, st.mem), st=st)
            h, t = c.new.g('freePoolsHead'), c.new.g('freePoolsTail')
            st.ghost['head'] = h
            for n, f in chain(G(c), s.fl(), h, t, free_of=st.ghost['P'], aligned=s.aligned): st.assume(f)
        else: s.otherlock(ex, st, m)
        return V(bv(0, 32))
    def otherlock(s, ex, st, m): raise Break('lock of %s' % m)
    def otherunlock(s, ex, st, m): raise Break('unlock of %s' % m)
    def args_of(s, ex): return ex.args
    def unlock(s, ex, st, args, i):
        from ..sym import Ctx, MemView
        m = s.mutex(ex, args)
        if m == s.LOCK:
            ex.oblige(st, 'the free list is locked when unlocked', st.ghost['locked'] == bv(1), 'lock')
            st.ghost['locked'] = bv(0)
            c = Ctx(ex, s, ex.args, ex.mem0view, MemView(ex, st.mem), st=st)
            q = s.after(c)
            for n, f in chain(G(c), q, c.new.g('freePoolsHead'), c.new.g('freePoolsTail'), pats=False, aligned=s.aligned):
                if n == 'length': continue      # bounded by the address space
                ex.oblige(st, 'free list at unlock: ' + n, f, 'lock')
            s.at_unlock(ex, st, c, q)
        else: s.otherunlock(ex, st, m)
        return V(bv(0, 32))
    def at_unlock(s, ex, st, c, q): pass
    def setup(s, c, st):
        st.ghost['P'] = P0(); st.ghost['locked'] = bv(0); st.ghost['head'] = bv(0)
        st.ghost['got'] = z3.BoolVal(False)
    aligned = True      # pools are aligned to their size
    fields8 = ('next', 'free', 'end', 'survivors', 'finalizers')
    def bases(s, c):
        """[(pool, condition)] whose header may be accessed"""
        raise NotImplementedError
    def valid(s, c, z, size, what):
        if size != 8: return z3.BoolVal(False)
        fs = [bv(c.off['Pool.' + f]) for f in s.fields8 if 'Pool.' + f in c.off]
        return z3.Or([z3.And(cond, z3.Or([z == p + o for o in fs])) for p, cond in s.bases(c)])
    def free_bases(s, c):
        q = s.fl(); lk = c.st.ghost['locked'] == bv(1)
        return [(q.nth(bv(0)), z3.And(lk, q.n != 0)), (q.nth(q.n - 1), z3.And(lk, q.n != 0))]

class NewPoolV(Locked):
    """ggggc_newPool: a pool from the free list or the system"""
    name = 'ggggc_newPool'
    params = (('mustSucceed', 'int'),)
    modifies = ('r64',)
    globals_mod = ('freePoolsHead', 'freePoolsTail', 'errno!cell')
    def setup(s, c, st):
        Locked.setup(s, c, st)
        st.ghost['blk'] = bv(0); st.ghost['blkn'] = bv(0); st.ghost['took'] = z3.BoolVal(False)
        st.ghost['um'] = bv(0)
        s.um = {}
    def requires(s, c): return []
    def after(s, c):
        q = s.fl()
        return q.ite(c.new.g('freePoolsHead') == c.st.ghost['head'], q.tail1()) if False else q.tail1().ite(s.took(c), q)
    def took(s, c): return c.new.g('freePoolsHead') != c.st.ghost['head']
    def at_unlock(s, ex, st, c, q):
        st.ghost['took'] = s.took(c)
        s.q = q
        st.ghost['locked'] = bv(0)
    # the pool just obtained: taken off the free list, or in a block from the system
    def bases(s, c):
        gh = c.st.ghost
        PB = bv(c.off['POOL_BYTES'])
        r = s.free_bases(c) + [(gh['head'], gh['took'])]
        up = (gh['blk'] + (PB - 1)) & ~(PB - 1)
        return r + [(b, s.inblk(c, b)) for b in ([up] if s.aligned else [gh['blk']])]
    def wf(s, g, r):
        if s.aligned: return g.wf(r, None, False)
        return z3.And(r & 7 == 0, g.get(r, 'end') == r + bv(g.PB))
    def inblk(s, c, p):
        gh = c.st.ghost
        PB = bv(c.off['POOL_BYTES'])
        return z3.And(gh['blkn'] != 0, z3.UGE(p, gh['blk']), z3.UGE(gh['blkn'], PB), z3.ULE(p - gh['blk'], gh['blkn'] - PB))
    # system allocators: a fresh block, disjoint from every pool in use
    def block(s, ex, st, z, n):
        st.assume(z3.And(z3.UGE(z, bv(HEAP_LO)), z3.ULT(z, bv(POOL_HI)), z3.ULE(n, bv(POOL_HI)), z3.ULE(z + n, bv(POOL_HI))))
        PB = ex.off['POOL_BYTES']
        p = z3.BitVec('p', 64)
        P, q = st.ghost['P'], s.fl()
        # no overlap with a pool that exists
        over = z3.And(z3.ULT(p, z + n), z3.UGT(p + bv(PB), z))
        st.assume(FA([p], z3.Implies(z3.And(over, p & bv(PB - 1 if s.aligned else 7) == 0), z3.Not(sel(P, p))), patterns=[sel(P, p)]))
        i = I()
        st.assume(FA([i], z3.Implies(z3.ULT(i, q.n), z3.Not(z3.substitute(over, (p, q.nth(i))))), patterns=[q.nth(i)]))
        st.ghost['blk'] = z; st.ghost['blkn'] = n
    def external(s, name):
        return {'@posix_memalign': s.memalign, '@mmap': s.mmap, '@mmap64': s.mmap, '@munmap': s.munmap, '@malloc': s.malloc}.get(name) or Locked.external(s, name)
    def memalign(s, ex, st, args, i):
        ptr, al, n = args
        bad = st.copy()
        z = ex.fresh('memalign')
        st.assume(z & (al.z - 1) == 0); st.assume(z != 0)
        s.block(ex, st, z, n.z)
        st.mem.c[(simp(ptr.z).as_long(), 64)] = V(z)
        e = ex.fresh('memalign_errno', 32)
        bad.assume(e != 0)
        return [(st, V(bv(0, 32))), (bad, V(e))]
    def mmap(s, ex, st, args, i):
        bad = st.copy()
        z = ex.fresh('mmap')
        s.block(ex, st, z, args[1].z)
        st.assume(z & 4095 == 0)
        return [(st, V(z)), (bad, V(bv(2**64 - 1)))]
    def malloc(s, ex, st, args, i):
        bad = st.copy()
        z = ex.fresh('malloc')
        s.block(ex, st, z, args[0].z)
        st.assume(z & 15 == 0)
        return [(st, V(z)), (bad, V(bv(0)))]
    def munmap(s, ex, st, args, i):
        z, n = args[0].z, args[1].z
        b, bn = st.ghost['blk'], st.ghost['blkn']
        ex.oblige(st, 'munmap of memory that was mapped', z3.And(z3.UGE(z, b), z3.ULE(z - b, bn), z3.ULE(n, bn - (z - b))), 'safety')
        ex.oblige(st, 'munmap of whole pages', z & 4095 == 0, 'safety')
        # what is left of the block: it must remain one piece
        e = b + bn
        nb = z3.If(z == b, z + n, b)
        ne = z3.If(z == b, e, z)
        ex.oblige(st, 'munmap at an end of the mapping', z3.Or(z == b, z + n == e, n == 0), 'safety')
        st.ghost['blk'] = z3.If(n == 0, b, nb); st.ghost['blkn'] = z3.If(n == 0, bn, ne - nb)
        return V(bv(0, 32))
    def ensures(s, c):
        g = G(c)
        r = c.ret.z
        gh = c.st.ghost
        q = s.fl()
        out = NewPool.post(NewPool(), c) if False else None
        new = c.new
        o = c.off
        P = P0()
        out = [('a pool unless it may fail', z3.Or(r != 0, c.z('mustSucceed') == 0)),
               ('not a pool in use', z3.Or(r == 0, z3.Not(sel(P, r)))),
               ('a pool of the free list taken off it, or wholly inside a new block', z3.Or(r == 0, z3.And(gh['took'], r == gh['head']), s.inblk(c, r))),
               ('a pool taken off the free list is handed out', z3.Implies(gh['took'], r == gh['head'])),
               ('the free list is unlocked', gh['locked'] == bv(0)),
               ('empty', z3.Or(r == 0, z3.And(s.wf(g, r), g.get(r, 'next') == 0, g.get(r, 'free') == g.start(r), g.get(r, 'survivors') == 0))),
               ('frame', unchanged(c, 'r64', lambda k: z3.And(r != 0, inpage(c, k, r))))]
        if 'Pool.finalizers' in o: out.append(('no finalizers', z3.Or(r == 0, g.get(r, 'finalizers') == 0)))
        return out

class NewPoolUnaligned(NewPoolV):
    """for collectors that do not find pools by masking addresses"""
    aligned = False

class NewPoolMalloc(NewPoolV):
    """with the allocator that carves pools out of large blocks, whose lock
    protects the rest of the current block"""
    globals_mod = NewPoolV.globals_mod + ('allocPool.space', 'allocPool.spaceEnd')
    def cells(s, ex): return [ex.gaddr('@allocPool.' + n) for n in ('space', 'spaceEnd')]
    def setup(s, c, st):
        NewPoolV.setup(s, c, st)
        st.ghost['plocked'] = st.ghost['left'] = st.ghost['leftend'] = bv(0)
    def otherlock(s, ex, st, m):
        if m != '@allocPool.poolLock': raise Break('lock of %s' % m)
        ex.oblige(st, 'the block is not locked twice', st.ghost['plocked'] == bv(0), 'lock')
        st.ghost['plocked'] = bv(1)
        z, e = ex.fresh('space'), ex.fresh('spaceEnd')
        for a, v in zip(s.cells(ex), (z, e)): st.mem.c[(a, 64)] = V(v)
        st.assume(z3.And(z3.ULE(z, e), z & bv(ex.off['POOL_BYTES'] - 1) == 0))
        n = z3.If(z == 0, bv(0), e - z)
        s.block(ex, st, z3.If(z == 0, bv(HEAP_LO), z), n)
    def otherunlock(s, ex, st, m):
        if m != '@allocPool.poolLock': raise Break('unlock of %s' % m)
        ex.oblige(st, 'the block is locked when unlocked', st.ghost['plocked'] == bv(1), 'lock')
        st.ghost['plocked'] = bv(0)
        z, e = [ex.cell(st.mem, a, 64).z for a in s.cells(ex)]
        b, bn = st.ghost['blk'], st.ghost['blkn']
        ex.oblige(st, 'the rest of the block lies in the block', z3.Or(z == 0, z3.And(z3.ULE(z, e), z & bv(ex.off['POOL_BYTES'] - 1) == 0, z3.UGE(z, b), z3.ULE(e - b, bn), z3.ULE(z - b, bn))), 'lock')
        st.ghost['left'] = z; st.ghost['leftend'] = e
    class L(LoopInv):
        name = 'block size'
        def inv(s, c):
            i = c.var('i').z
            yield 'size', z3.Or([i == bv(k) for k in (16, 8, 4, 2, 1)])
            yield 'no block yet', z3.Or(i == bv(16), c.new.cell(c.con.cells(c.ex)[0]) == 0)
    loops = (L(),)
    def bases(s, c):
        # any aligned pool of the block
        r = NewPoolV.bases(s, c)
        z = getattr(s, 'z', None)
        if z is not None:
            p = z & bv(~(c.off['POOL_BYTES'] - 1) & (2**64 - 1))
            r.append((p, s.inblk(c, p)))
        return r
    def valid(s, c, z, size, what):
        s.z = z
        return NewPoolV.valid(s, c, z, size, what)
    def ensures(s, c):
        gh = c.st.ghost
        r = c.ret.z
        return NewPoolV.ensures(s, c) + [('not in the rest of the block', z3.Or(r == 0, gh['took'], gh['left'] == 0, z3.ULE(r + bv(c.off['POOL_BYTES']), gh['left']), z3.ULE(gh['leftend'], r))),
                ('the block is unlocked', gh['plocked'] == bv(0))]

class FreeGeneration(Locked):
    """every pool of the list becomes available again, exactly once"""
    name = 'ggggc_freeGeneration'
    params = (('pool', 'raw'),)
    modifies = ('r64',)
    globals_mod = ('freePoolsHead', 'freePoolsTail')
    def setup(s, c, st):
        Locked.setup(s, c, st)
        st.ghost['done'] = z3.BoolVal(False)
    def arg(s): return Seq.const('arg')
    def requires(s, c):
        g = G(c, c.old)
        a = s.arg()
        r = [('list: ' + n, z3.Implies(c.z('pool') != 0, f) if n in ('length', 'ends') else f) for n, f in chain(g, a, c.z('pool'), a.nth(a.n - 1), owned=P0(), aligned=s.aligned)]
        return r + [('an empty list is null', (c.z('pool') == 0) == (a.n == 0))]
    def after(s, c): return s.fl().cat(s.arg())
    def bases(s, c):
        a = s.arg()
        r = s.free_bases(c)
        if 'j' in c.st.ghost: r.append((a.nth(c.st.ghost['j']), z3.ULT(c.st.ghost['j'], a.n)))
        return r + [(a.nth(bv(0)), a.n != 0)]
    def at_unlock(s, ex, st, c, q): st.ghost['done'] = z3.BoolVal(True)
    class L(LoopInv):
        name = 'to the last pool'
        ghosts = ('j',)
        def ghost_init(s, c): return {'j': bv(0)}
        def ghost_step(s, c): return {'j': c.gh['j'] + 1}
        def ghost_fresh(s, ex, g, old): return ex.fresh('j')
        def inv(s, c):
            a = c.con.arg()
            j = c.gh['j']
            yield 'a pool of the list', z3.And(z3.ULT(j, a.n), c.var('pool').z == a.nth(j))
    loops = (L(),)
    def ensures(s, c):
        gh = c.st.ghost
        g = G(c)
        f = s.fl()
        a = s.arg()
        return [('the pools are on the free list', z3.Or(gh['done'], c.z('pool') == 0)),
                ('the free list is unlocked', gh['locked'] == bv(0)),
                ('frame', unchanged(c, 'r64', lambda k: z3.And(gh['done'], f.n != 0, k == g.fld(f.nth(f.n - 1), 'next'))))]

class FreeGenerationUnaligned(FreeGeneration):
    aligned = False

class ExpandPoolList(Raw):
    """the list keeps its pools and gets at most as many new ones as it had"""
    name = 'ggggc_expandPoolList'
    params = (('poolList', 'raw'), ('newPool', 'int'), ('ratio', 'int'))
    modifies = ('r64', 'r8', 'r16')
    def arg(s): return Seq.const('arg')
    def new(s, c):
        gh = c.gh if getattr(c, 'gh', None) else c.st.ghost
        return Seq(gh['bn'], lambda i: sel(gh['bnth'], i), lambda p: sel(gh['bidx'], p))
    def setup(s, c, st):
        st.ghost['P'] = P0(); st.ghost['bn'] = bv(0)
        st.ghost['bnth'] = z3.Const('bnth!0', W64); st.ghost['bidx'] = z3.Const('bidx!0', W64)
    def requires(s, c):
        g = G(c, c.old); a = s.arg(); p = c.z('poolList')
        r = [('list: ' + n, z3.Implies(p != 0, f) if n in ('length', 'ends') else f) for n, f in chain(g, a, p, a.nth(a.n - 1), owned=P0())]
        return r + [('an empty list is null', (p == 0) == (a.n == 0))]
    def inlist(s, c, k):
        g = G(c); return s.arg().has(g.of(k))
    def touched(s, c, k, P, second):
        g = G(c); a = s.arg(); q = g.of(k)
        r = [z3.And(k == g.fld(q, 'survivors'), a.has(q))]
        if second: r += [k == g.fld(a.nth(a.n - 1), 'next'), z3.And(sel(P, q), z3.Not(sel(P0(), q)))]
        return z3.Or(r)
    def reset(s, c, n):
        g = G(c); a = s.arg(); i = I()
        return forall([i], z3.Implies(z3.ULT(i, n), g.get(a.nth(i), 'survivors') == 0), a.nth(i))
    def news(s, c, P):
        """the new pools"""
        g = G(c); b = s.new(c); i = I(); p = z3.BitVec('p', 64)
        yield 'at most as many', z3.ULE(b.n, s.arg().n)
        yield 'new pools, linked', forall([i], z3.Implies(z3.ULT(i, b.n), g.get(b.nth(i), 'next') == z3.If(i == b.n - 1, bv(0), b.nth(i + 1))), b.nth(i))
        yield 'new pools, places', forall([i], z3.Implies(z3.ULT(i, b.n), z3.And(b.nth(i) & bv(g.PB - 1) == 0, z3.UGE(b.nth(i), bv(HEAP_LO)), z3.ULT(b.nth(i), bv(POOL_HI)))), b.nth(i))
        yield 'new pools, each once', forall([i], z3.Implies(z3.ULT(i, b.n), b.idx(b.nth(i)) == i), b.nth(i))
        yield 'new pools, from nobody else', forall([i], z3.Implies(z3.ULT(i, b.n), z3.And(sel(P, b.nth(i)), z3.Not(sel(P0(), b.nth(i))))), b.nth(i))
        yield 'pools stay', forall([p], z3.Implies(sel(P0(), p), sel(P, p)), sel(P, p))
        yield 'no pool is lost', forall([p], z3.Implies(sel(P, p), z3.Or(sel(P0(), p), b.has(p))), sel(P, p))
    class Walk(LoopInv):
        name = 'count the pools'
        ghosts = ('j',)
        def ghost_init(s, c): return {'j': bv(0)}
        def ghost_step(s, c): return {'j': c.gh['j'] + 1}
        def ghost_fresh(s, ex, g, old): return ex.fresh('j')
        def inv(s, c):
            con = c.con; a = con.arg(); j = c.gh['j']
            yield 'a pool of the list', z3.And(z3.ULT(j, a.n), c.var('pool').z == a.nth(j))
            yield 'count', c.var('poolCt').z == j
            yield 'reset', con.reset(c, j)
            yield 'frame', unchanged(c, 'r64', lambda k: con.touched(c, k, P0(), False))
    class Grow(LoopInv):
        name = 'add pools'
        ghosts = ('P', 'bn', 'bnth', 'bidx')
        def ghost_init(s, c): return {k: c.gh[k] for k in s.ghosts}
        ghost_step = ghost_init
        def ghost_fresh(s, ex, g, old):
            return z3.Const('P!g%d' % next(ex.fresh_n), BS) if g == 'P' else ex.fresh('bn') if g == 'bn' else z3.Const('%s!g%d' % (g, next(ex.fresh_n)), W64)
        def inv(s, c):
            con = c.con; a = con.arg(); g = G(c); b = con.new(c); P = c.gh['P']
            yield 'counted', z3.And(a.n != 0, z3.ULE(c.var('i').z, a.n))
            yield 'added', b.n == c.var('i').z
            last = a.nth(a.n - 1)
            yield 'last pool', c.var('pool').z == z3.If(b.n == 0, last, b.nth(b.n - 1))
            yield 'joined', g.get(last, 'next') == z3.If(b.n == 0, bv(0), b.nth(bv(0)))
            for x in con.news(c, P): yield x
            yield 'reset', con.reset(c, a.n)
            yield 'frame', unchanged(c, 'r64', lambda k: con.touched(c, k, P, True))
    loops = (Walk(), Grow())
    def indirect(s, ex, st, fv, vals, i):
        from ..sym import Ctx, MemView
        ex.oblige(st, 'the callback is the one given', fv.z == ex.args['newPool'].z, 'pre')
        ex.oblige(st, 'called for the list', vals[0][1].z == ex.args['poolList'].z, 'pre')
        old = MemView(ex, st.mem.copy())
        for n in ('r64', 'r8', 'r16'): st.mem.a[n] = ex.fresharr(n)
        r = ex.fresh('newpool')
        c = Ctx(ex, s, ex.args, old, MemView(ex, st.mem), st=st)
        g = G(c); P = st.ghost['P']
        st.assume(z3.Or(r == 0, z3.And(z3.Not(sel(P, r)), g.wf(r, P, False), g.get(r, 'next') == 0)))
        for n in ('r64', 'r8', 'r16'): st.assume(unchanged(c, n, lambda k: z3.And(r != 0, inpage(c, k, r))))
        n = st.ghost['bn']
        st.ghost['P'] = z3.If(r != 0, z3.Store(P, r, z3.BoolVal(True)), P)
        st.ghost['bnth'] = z3.If(r != 0, z3.Store(st.ghost['bnth'], n, r), st.ghost['bnth'])
        st.ghost['bidx'] = z3.If(r != 0, z3.Store(st.ghost['bidx'], r, n), st.ghost['bidx'])
        st.ghost['bn'] = z3.If(r != 0, n + 1, n)
        return V(r)
    def ensures(s, c):
        g = G(c); a = s.arg(); b = s.new(c); P = c.gh['P']; p = c.z('poolList')
        i = I()
        # the list is now `arg` followed by the new pools
        r = [('old pools stay, linked to the new', forall([i], z3.Implies(z3.ULT(i, a.n), g.get(a.nth(i), 'next') == z3.If(i != a.n - 1, a.nth(i + 1), z3.If(b.n == 0, bv(0), b.nth(bv(0))))), a.nth(i)))]
        return r + [x for x in s.news(c, P)] + [('survivors counted anew', s.reset(c, a.n)), ('frame', unchanged(c, 'r64', lambda k: s.touched(c, k, P, True)))]
