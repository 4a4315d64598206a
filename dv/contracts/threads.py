"""Blocking, starting and ending threads (C19, C20).

Shared state (the number of threads, the world barrier and the lists of what
blocked threads registered) is protected by ggggc_worldBarrierLock: when the
lock is taken it becomes any state satisfying the lock invariant, which every
unlock has to re-establish together with the function's effect on it.

The barrier is a ghost `bar`: 0 when not initialised, else the number of
threads it waits for.  Each list is a ghost sequence of nodes."""
import z3
from ..sym import Contract, bv, V, LoopInv, HEAP_LO, POOL_HI, Break, EXTERNALS, simp, isnum, FA, Ctx, MemView, gcref
from .pools import Seq, I
from .mutator import Mut, Malloc, COMMON, A0, desc_ok
from . import mutator

K = z3.Function('node_word', z3.BitVecSort(64), z3.BitVecSort(64))      # which word of which list's nodes an address is
MAXT = 1 << 30

class Node:
    def __init__(s, k, head, own, pre, fields):
        s.k, s.head, s.own, s.pre, s.fields = k, head, own, pre, fields
    def off(s, c, f): return c.off['%s.%s' % (s.pre, f)]
    def offs(s, c): return [s.off(c, f) for f in ('next',) + s.fields]
NODES = [Node(1, 'ggggc_blockedThreadPool0s', 'blockedPoolListNode', 'PL', ('pool',)),
         Node(2, 'ggggc_blockedThreadPointerStacks', 'blockedPointerStackListNode', 'PSL', ('pointerStack',)),
         Node(3, 'ggggc_blockedThreadJITPointerStacks', 'blockedJITPointerStackListNode', 'JPSL', ('cur', 'top'))]
def nodes(off): return [n for n in NODES if n.pre + '.next' in off]

def threads(n):
    """running, unblocked threads; before the first thread starts or blocks there is one"""
    return z3.If(n == bv(2**64 - 1), bv(1), n)

class Yield(Contract):
    """a safe point: it may collect, also with the help of other threads"""
    name = 'ggggc_yield'
    params = ()
    may_gc = True
    modifies = ('r64',)
    globals_mod = ('ggggc_gen0', 'ggggc_pool0')
    def requires(s, c):
        lk = c.st.ghost.get('locked')
        return [] if lk is None else [('the world barrier lock is not held', lk == bv(0))]

class World:
    """what code that takes the world lock shares (mixin)"""
    LOCK = '@ggggc_worldBarrierLock'
    caller = 'running'          # running, blocked or spawned: what the lock invariant says of the calling thread
    # the lists are only looked at where the code changes them
    lists = True
    rawglobals = tuple(x for n in NODES for x in (n.head, n.own))
    def wsetup(s, c, st):
        st.ghost.update(locked=bv(0), sections=bv(0), bar=bv(0), count=bv(0), spawned=z3.BoolVal(False))
        for n in nodes(c.off):
            c.ex.gaddr('@' + n.head); c.ex.gaddr('@' + n.own)
        s.q = None
    def ext(s, name):
        return {'@pthread_mutex_trylock': s.trylock, '@pthread_mutex_lock': s.lock, '@pthread_mutex_unlock': s.unlock, '@pthread_barrier_init': s.binit,
                '@pthread_barrier_destroy': s.bdestroy}.get(name)
    def world(s, ex, args, what):
        z = simp(args[0].z)
        if not isnum(z) or ex.whichglobal(z.as_long())[0] != what: raise Break('a lock or barrier other than the world\'s')
    def G(s, c, n): return (bv(c.ex.gaddr('@' + n.head)), bv(c.ex.gaddr('@' + n.own)))
    def seq(s, n): return s.q[n.k]
    def ctx(s, ex, st): return Ctx(ex, s, ex.args, ex.mem0view, MemView(ex, st.mem), st=st)
    def trylock(s, ex, st, args, i):
        s.world(ex, args, s.LOCK)
        bad = st.copy()
        e = ex.fresh('busy', 32)
        bad.assume(e != 0)
        s.acquire(ex, st)
        return [(st, V(bv(0, 32))), (bad, V(e))]
    def lock(s, ex, st, args, i):
        s.world(ex, args, s.LOCK)
        s.acquire(ex, st)
        return V(bv(0, 32))
    def acquire(s, ex, st):
        gh = st.ghost
        ex.oblige(st, 'the world lock is not taken twice', gh['locked'] == bv(0), 'lock')
        gh['locked'] = bv(1)
        N = ex.fresh('threadCount')
        st.mem.c[(ex.gaddr('@ggggc_threadCount'), 64)] = V(N)
        none = N == bv(2**64 - 1)
        st.assume(z3.Or(none, z3.ULT(N, bv(MAXT))))
        gh['count'] = N
        gh['bar'] = z3.If(none, bv(0), N)
        st.assume({'running': N != 0, 'blocked': z3.Not(none), 'spawned': z3.And(N != 0, z3.Not(none))}[s.caller])
        if s.lists:
            st.mem.a['r64'] = ex.fresharr('r64')
            c = s.ctx(ex, st)
            t = next(ex.fresh_n)
            s.q = {}
            for n in nodes(ex.off):
                q = s.q[n.k] = Seq.const('blocked%d_%d' % (n.k, t))
                for _, f in s.chain(c, n, q, c.new, True): st.assume(f)
                _, own = s.G(c, n)
                i = I()
                if s.caller == 'blocked':
                    k = gh['pos%d' % n.k] = ex.fresh('pos')
                    st.assume(z3.And(z3.ULT(k, q.n), q.nth(k) == own, q.idx(own) == k))
                else:
                    st.assume(FA([i], z3.Implies(z3.ULT(i, q.n), q.nth(i) != own), patterns=[q.nth(i)]))
        gh['mem'] = MemView(ex, st.mem.copy())
    def chain(s, c, n, q, m, pats=False):
        """[(name, formula)]: the list n denotes q in memory m"""
        head, own = s.G(c, n)
        i = I()
        P = [q.nth(i)] if pats else []
        rng = z3.ULT(i, q.n)
        x = q.nth(i)
        kinds = [K(x + bv(o)) == bv(16*n.k + o//8) for o in n.offs(c)]
        where = z3.Or(x == own, z3.And(z3.UGE(x, bv(HEAP_LO)), z3.ULT(x, bv(POOL_HI))))
        r = [('length', z3.ULT(q.n, bv(MAXT))),
             ('first', m.w(head) == z3.If(q.n == 0, bv(0), q.nth(bv(0)))),
             ('links', FA([i], z3.Implies(rng, m.w(x + bv(n.off(c, 'next'))) == z3.If(i == q.n - 1, bv(0), q.nth(i + 1))), patterns=P)),
             ('nodes', FA([i], z3.Implies(rng, z3.And(where, x & 7 == 0, *kinds)), patterns=P)),
             ('each once', FA([i], z3.Implies(rng, q.idx(x) == i), patterns=P))]
        if pats:        # where our own variables are
            r.append(('', z3.And([K(own + bv(o)) == bv(16*n.k + o//8) for o in n.offs(c)] + [K(head) == bv(200 + n.k)])))
        return r
    def frame(s, c, n, q, old, new):
        """what the blocked threads q registered is as it was"""
        i = I()
        x = q.nth(i)
        return FA([i], z3.Implies(z3.ULT(i, q.n), z3.And([new.w(x + bv(n.off(c, f))) == old.w(x + bv(n.off(c, f))) for f in n.fields])))
    def unlock(s, ex, st, args, i):
        s.world(ex, args, s.LOCK)
        gh = st.ghost
        ex.oblige(st, 'the world lock is held when it is released', gh['locked'] == bv(1), 'lock')
        gh['locked'] = bv(0)
        gh['sections'] = gh['sections'] + 1
        N = ex.cell(st.mem, ex.gaddr('@ggggc_threadCount'), 64).z
        c = s.ctx(ex, st)
        ex.oblige(st, 'the number of threads collections wait for', s.counts(c, gh['count'], N), 'lock')
        ex.oblige(st, 'the world barrier waits for that many threads', gh['bar'] == z3.If(N == bv(2**64 - 1), bv(0), N), 'lock')
        if s.lists:
            for nd in nodes(ex.off):
                q = s.seq(nd)
                for n, f in s.goals(c, nd, q, gh['mem']): ex.oblige(st, '%s: %s' % (nd.head, n), f, 'lock')
                s.registered(ex, st, c, nd)
        return V(bv(0, 32))
    def registered(s, ex, st, c, nd): pass
    def binit(s, ex, st, args, i):
        s.world(ex, args, '@ggggc_worldBarrier')
        n = args[2].z
        n = z3.ZeroExt(64 - n.size(), n) if n.size() < 64 else n
        gh = st.ghost
        ex.oblige(st, 'the world barrier is only changed under its lock', gh['locked'] == bv(1), 'lock')
        ex.oblige(st, 'the world barrier is not initialised twice', gh['bar'] == bv(0), 'lock')
        ex.oblige(st, 'the world barrier is initialised for at least one thread', n != 0, 'lock')
        gh['bar'] = n
        return V(bv(0, 32))
    def bdestroy(s, ex, st, args, i):
        s.world(ex, args, '@ggggc_worldBarrier')
        gh = st.ghost
        ex.oblige(st, 'the world barrier is only changed under its lock', gh['locked'] == bv(1), 'lock')
        ex.oblige(st, 'only an initialised world barrier is destroyed', gh['bar'] != bv(0), 'lock')
        gh['bar'] = bv(0)
        return V(bv(0, 32))
    def once(s, c): return [('the world lock is released', c.st.ghost['locked'] == bv(0)), ('the threads are counted once', c.st.ghost['sections'] == bv(1))]

class Wait(LoopInv):
    name = 'wait for the world lock'
    def inv(s, c):
        gh = c.st.ghost
        yield 'not locked', gh['locked'] == bv(0)

class Blocking(World, Contract):
    params = ()
    modifies = ('r64',)
    may_gc = True
    globals_mod = ('ggggc_threadCount', 'ggggc_gen0', 'ggggc_pool0')
    def external(s, name): return s.ext(name)
    def setup(s, c, st): s.wsetup(c, st)
    def valid(s, c, z, size, what):
        if size != 8: return z3.BoolVal(False)
        r = []
        for n in nodes(c.off):
            head, own = s.G(c, n)
            r.append(z == head)
            for o in n.offs(c):
                r.append(z == own + bv(o))
                if s.q is not None: r.append(z3.And(c.st.ghost['locked'] == bv(1), s.seq(n).has(z - bv(o))))
        return z3.Or(r)
    def ensures(s, c): return s.once(c)
    def match_loops(s, ex, f, loops): return {l.idx: Wait() for l in loops}

class PreBlocking(Blocking):
    """C19: a thread that is about to block registers its roots and pools, and is no longer counted"""
    name = 'ggc_pre_blocking'
    def counts(s, c, old, new): return new == threads(old) - 1
    def goals(s, c, n, q, old):
        _, own = s.G(c, n)
        nq = Seq(q.n + 1, lambda i: z3.If(i == 0, own, q.nth(i - 1)), lambda p: z3.If(p == own, bv(0), q.idx(p) + 1))
        return [(m, f) for m, f in s.chain(c, n, nq, c.new) if m != 'length'] + [('what other threads registered is unchanged', s.frame(c, n, q, old, c.new))]
    REG = {1: (('pool', 'ggggc_gen0'),), 2: (('pointerStack', 'ggggc_pointerStack'),), 3: (('cur', 'ggc_jitPointerStack'), ('top', 'ggc_jitPointerStackEnd'))}
    def registered(s, ex, st, c, n):
        _, own = s.G(c, n)
        for f, g in s.REG[n.k]:
            ex.oblige(st, 'the thread\'s current %s is registered' % g, c.new.w(own + bv(n.off(c, f))) == c.new.g(g), 'lock')

class Walk(LoopInv):
    """looks for our own node; the current position is a node before it or the list head"""
    name = 'find the own node'
    def which(s, c, x):
        """the list walked, by where the walk starts"""
        z = simp(x)
        if z3.is_select(z): z = simp(z.arg(1))
        for n in nodes(c.off):
            if isnum(z) and z.as_long() == c.ex.gaddr('@' + n.head): return n
        if hasattr(s, 'n'): return s.n
        raise Break('a loop over something other than a list of blocked threads')
    def inv(s, c):
        con = c.con
        if len(c.vals) != 1: raise Break('list walk with %d variables' % len(c.vals))
        x = list(c.vals.values())[0].z
        n = s.n = s.which(c, x)
        q = con.seq(n)
        head, own = con.G(c, n)
        k = c.st.ghost['pos%d' % n.k]
        assert n.off(c, 'next') == 0
        yield 'before the own node', z3.Or(x == head, z3.And(q.has(x), z3.ULT(q.idx(x), k)))
        e, a = c.entry.arr('r64'), c.new.arr('r64')
        if not z3.eq(e, a): yield 'list unchanged', a == e

def calls(ex, lp, name):
    return any(i.op == 'call' and name in repr(i.a) for b in lp.body for i in ex.fn.blocks[b].ins)

class PostBlocking(Blocking):
    """C19: back from blocking, a thread is counted again and takes exactly its own registrations out"""
    name = 'ggc_post_blocking'
    caller = 'blocked'
    def match_loops(s, ex, f, loops):
        return {l.idx: Wait() if calls(ex, l, '@pthread_mutex_trylock') else Walk() for l in loops}
    def counts(s, c, old, new): return new == old + 1
    def goals(s, c, n, q, old):
        # by positions in the old list: all but k remain, in order
        head, own = s.G(c, n)
        k = c.st.ghost['pos%d' % n.k]
        i = I(); x = q.nth(i)
        at = lambda j: z3.If(j == q.n, bv(0), q.nth(j))
        link = c.new.w(x + bv(n.off(c, 'next')))
        rng = z3.And(z3.ULT(i, q.n), i != k)
        return [('first', c.new.w(head) == z3.If(k == 0, at(bv(1)), q.nth(bv(0)))),
                ('links before', FA([i], z3.Implies(z3.And(rng, i + 1 == k), link == at(k + 1)))),
                ('links elsewhere', FA([i], z3.Implies(z3.And(rng, i + 1 != k), link == at(i + 1)))),
                ('what other threads registered is unchanged', FA([i], z3.Implies(rng, z3.And([c.new.w(x + bv(n.off(c, f))) == old.w(x + bv(n.off(c, f))) for f in n.fields]))))]

# ------------------------------------------------- the blocking operations
class PreC(Contract):
    """the contract of ggc_pre_blocking, for its callers"""
    name = 'ggc_pre_blocking'
    params = ()
    may_gc = True
    modifies = ('r64',)
    globals_mod = PreBlocking.globals_mod
    def requires(s, c): return [('the thread is not registered as blocked already', c.st.ghost['blk'] == bv(0))]
    def apply_effects(s, c, st): st.ghost['blk'] = bv(1)
class PostC(PreC):
    name = 'ggc_post_blocking'
    def requires(s, c): return [('the thread is registered as blocked', c.st.ghost['blk'] == bv(1))]
    def apply_effects(s, c, st): st.ghost['blk'] = bv(0)
BLOCK = {'@ggc_pre_blocking': PreC(), '@ggc_post_blocking': PostC()}

class Op(Contract):
    """C19: a blocking operation runs between registering as blocked and the
    return from it, exactly once, and its outcome is reported"""
    may_gc = True
    modifies = ('r64',)
    globals_mod = PreBlocking.globals_mod + ('errno!cell',)
    call = ''
    carg = 0
    def setup(s, c, st): st.ghost.update(blk=bv(0), calls=bv(0), err=bv(0, 32))
    def external(s, name): return s.raw if name == '@' + s.call else None
    def raw(s, ex, st, args, i):
        ex.oblige(st, 'the thread is registered as blocked while it waits', st.ghost['blk'] == bv(1), 'pre')
        ex.oblige(st, 'it waits for what it was asked to', args[0].z == ex.args[s.params[0][0]].z, 'pre')
        st.ghost['calls'] = st.ghost['calls'] + 1
        e = ex.fresh('outcome', 32)
        st.ghost['err'] = e
        if s.seterrno: st.mem.c[(ex.gaddr('@errno!cell'), 32)] = V(ex.fresh('errno', 32))
        if s.seterrno: st.assume(ex.cell(st.mem, ex.gaddr('@errno!cell'), 32).z != 0)
        return V(e)
    seterrno = False
    def ensures(s, c):
        gh = c.st.ghost
        return [('not registered as blocked any more', gh['blk'] == bv(0)), ('the operation is done once', gh['calls'] == bv(1)),
                ('success is reported exactly when it succeeded', (c.ret.z == 0) == (gh['err'] == 0))]

class BarrierWait(Op):
    name, call, params = 'ggc_barrier_wait', 'pthread_barrier_wait', (('barrier', 'raw'),)
class MutexLock(Op):
    name, call, params = 'ggc_mutex_lock', 'pthread_mutex_lock', (('mutex', 'raw'),)
class SemWait(Op):
    name, call, params = 'ggc_sem_wait', 'sem_wait', (('sem', 'raw'),)
    seterrno = True
class ThreadJoin(Op):
    name, call, params = 'ggc_thread_join', 'pthread_join', (('thread', 'int'),)

# ------------------------------------------------------ starting and ending
class Spawner(World, Mut):
    """code of threads.c that handles ThreadInfo objects"""
    lists = False
    descs = ('ThreadInfo',)
    rawglobals = ()
    globals_mod = ('ggggc_threadCount', 'ggggc_gen0', 'ggggc_pool0')
    modifies = Mut.modifies + ('r64',)
    def external(s, name): return s.ext(name)
    def setup(s, c, st):
        Mut.setup(s, c, st); World.wsetup(s, c, st)
        s.tifunc = c.off['TI.func']
    def needs_barrier(s, p):
        z = simp(p.o)
        return not (isnum(z) and z.as_long() == s.tifunc)      # a C function, not an object
    def match_loops(s, ex, f, loops): return {l.idx: Wait() for l in loops}

class YieldM(mutator.Yield):
    modifies = ('r64',)
    globals_mod = ('ggggc_gen0', 'ggggc_pool0')
    def requires(s, c): return Yield.requires(s, c)

class Create(Spawner):
    """C20: a thread is counted exactly when it was started, and is given the function and argument asked for"""
    name = 'ggc_thread_create'
    params = (('thread', 'raw'), ('func', 'raw'), ('arg', 'gc'))
    globals_mod = Spawner.globals_mod + ('errno!cell',)
    def setup(s, c, st):
        Spawner.setup(s, c, st)
        st.ghost.update(tried=bv(0), err=bv(0, 32), passed=bv(0))
    def requires(s, c): return s.need_descs(c)
    def external(s, name): return s.create if name == '@pthread_create' else s.ext(name)
    def create(s, ex, st, args, i):
        gh = st.ghost
        c = s.ctx(ex, st)
        ti = args[3]
        s.fields(ex, st, c, ti)
        start = simp(args[2].z)
        ex.oblige(st, 'the thread is started while no collection can be', gh['locked'] == bv(1), 'pre')
        ex.oblige(st, 'the thread starts in the wrapper', start == bv(ex.gaddr('@ggggcThreadWrapper')), 'pre')
        ex.oblige(st, 'the thread handle goes where it was asked for', args[0].z == ex.args['thread'].z, 'pre')
        gh['tried'] = gh['tried'] + 1
        bad = st.copy()
        e = ex.fresh('err', 32)
        bad.assume(e != 0)
        bad.ghost['err'] = e
        st.ghost['spawned'] = z3.BoolVal(True)
        return [(st, V(bv(0, 32))), (bad, V(e))]
    def fields(s, ex, st, c, ti):
        o = c.off
        ex.stale(st, ti, 'handed to the new thread')
        z = ti.b if ti.b is not None else ti.z
        A = st.ghost['A']
        ex.oblige(st, 'the new thread gets a thread info object', z3.And(ti.z == z, z3.Select(A, z) == bv(o['TI.size'])), 'pre')
        ex.oblige(st, 'the new thread is given the function', c.new.ow(z, o['TI.func']) == ex.args['func'].z, 'pre')
        ex.oblige(st, 'the new thread is given the argument object', c.new.ow(z, o['TI.arg']) == ex.args['arg'].z, 'pre')
    def counts(s, c, old, new): return new == z3.If(c.st.ghost['spawned'], threads(old) + 1, old)
    def ensures(s, c):
        gh = c.st.ghost
        return s.once(c) + [('one thread is started', gh['tried'] == bv(1)), ('success is reported exactly when a thread was started', c.ret.z == z3.If(gh['spawned'], bv(0, 32), bv(2**32 - 1, 32))),
                            ('the reason is reported', z3.Or(gh['spawned'], c.ex.cell(c.st.mem, c.ex.gaddr('@errno!cell'), 32).z == gh['err']))]

class FreeGen(Contract):
    """C08 proves that it returns every pool of the list exactly once"""
    name = 'ggggc_freeGeneration'
    params = (('proto', 'raw'),)
    modifies = ('r64',)
    def requires(s, c):
        return [('the pools of the thread', c.z('proto') == c.new.g('ggggc_gen0')), ('they have not been freed yet', c.st.ghost['freed'] == bv(0))]
    def apply_effects(s, c, st): st.ghost['freed'] = bv(1)

class Wrapper(Spawner):
    """C20: a thread runs the function it was given on the argument it was given,
    then leaves the count of threads, and returns its pools once"""
    name = 'ggggcThreadWrapper'
    params = (('arg', 'gc'),)
    caller = 'spawned'
    def setup(s, c, st):
        Spawner.setup(s, c, st)
        st.ghost.update(ran=bv(0), freed=bv(0))
        z = c.z('arg')
        o = c.off
        s.func, s.darg = c.old.ow(z, o['TI.func']), c.old.ow(z, o['TI.arg'])
    def requires(s, c): return s.need_descs(c) + [('a thread info object', z3.And(c.z('arg') != 0, z3.Select(c.gh['A'], c.z('arg')) == bv(c.off['TI.size'])))]
    def loadkind(s, p):
        z = simp(p.o) if p.b is not None else None
        if z is not None and isnum(z) and z.as_long() == s.tifunc: return None
        return Mut.loadkind(s, p)
    def indirect(s, ex, st, fv, vals, i):
        if len(vals) != 1: raise Break('indirect call with %d arguments' % len(vals))
        vals = [v for _, v in vals]
        ex.stale(st, vals[0], 'argument of the thread function')
        ex.oblige(st, 'the function of the thread info object is run', fv.z == s.func, 'pre')
        ex.oblige(st, 'it is given the argument object of the thread info object', vals[0].z == s.darg, 'pre')
        ex.oblige(st, 'it is run while the thread is counted and holds no lock', z3.And(st.ghost['locked'] == bv(0), st.ghost['sections'] == bv(0)), 'pre')
        st.ghost['ran'] = st.ghost['ran'] + 1
        ex.safepoint(st, 'the thread function')
        for n in ('o8', 'o16', 'o32', 'o64', 'r64'): st.mem.a[n] = ex.fresharr(n)
        for g in ('ggggc_gen0', 'ggggc_pool0'): st.mem.c[(ex.gaddr('@' + g), 64)] = V(ex.fresh(g))
        return None
    def counts(s, c, old, new): return new == old - 1
    def ensures(s, c):
        gh = c.st.ghost
        return s.once(c) + [('the function is run once', gh['ran'] == bv(1)), ('its pools are returned', gh['freed'] == bv(1))]
MAIN = {'@ggggc_yield': YieldM(), '@ggggc_malloc': Malloc(), '@ggggc_freeGeneration': FreeGen()}

# ----------------------------------------------------------- being stopped
class YieldBody(Contract):
    """C09/C18: a thread stopped for another thread's collection waits for it to
    end, and registers its pools, its pointer stack and its JIT stack between the
    first wait (the world is stopped) and the second (the collection starts)"""
    name = 'ggggc_yield'
    params = ()
    globals_mod = ('ggggc_pool0', 'ggggc_rootPool0List', 'ggggc_rootPointerStackList', 'ggggc_rootJITPointerStackList')
    LISTS = (('ggggc_rootPool0List', 'PL', (('pool', 'ggggc_gen0'),)),
             ('ggggc_rootPointerStackList', 'PSL', (('pointerStack', 'ggggc_pointerStack'),)),
             ('ggggc_rootJITPointerStackList', 'JPSL', (('cur', 'ggc_jitPointerStack'), ('top', 'ggc_jitPointerStackEnd'))))
    def lists(s, off): return [l for l in s.LISTS if l[1] + '.next' in off]
    def ms(s, ex): return '@sweep' in ex.contracts
    def setup(s, c, st):
        st.ghost.update(waits=bv(0), locked=bv(0), fed=bv(0), swept=bv(0), cleared=bv(0))
    def valid(s, c, z, size, what): return z3.BoolVal(False)
    def external(s, name):
        return {'@pthread_barrier_wait': s.wait, '@pthread_mutex_lock': s.lock, '@pthread_mutex_unlock': s.unlock}.get(name)
    def known(s, ex, args, what):
        z = simp(args[0].z)
        if not isnum(z) or ex.whichglobal(z.as_long())[0] != what: raise Break('not %s' % what)
    def lock(s, ex, st, args, i):
        s.known(ex, args, '@ggggc_rootsLock')
        gh = st.ghost
        ex.oblige(st, 'the roots lock is not taken twice', gh['locked'] == bv(0), 'lock')
        ex.oblige(st, 'roots are registered between the first and the second wait', gh['waits'] == bv(1), 'lock')
        gh['locked'] = bv(1)
        gh['at'] = {}
        for g, _, _ in s.lists(ex.off):
            z = gh['at'][g] = ex.fresh(g)
            st.mem.c[(ex.gaddr('@' + g), 64)] = V(z)
        return V(bv(0, 32))
    def registered(s, ex, st, when):
        c = Ctx(ex, s, ex.args, ex.mem0view, MemView(ex, st.mem), st=st)
        for g, pre, fs in s.lists(ex.off):
            h = simp(st.ghost['head'][g])
            own = [n for lo, n in ex.stackrange if isnum(h) and lo <= h.as_long() < n]
            ex.oblige(st, '%s: %s holds a node of this thread' % (when, g), bool(own), 'lock')
            if not own: continue
            for f, v in fs: ex.oblige(st, '%s: the %s of this thread is registered' % (when, v), c.new.cell(h.as_long() + ex.off['%s.%s' % (pre, f)]) == c.new.g(v), 'lock')
            ex.oblige(st, '%s: %s keeps what other threads registered' % (when, g), c.new.cell(h.as_long() + ex.off[pre + '.next']) == st.ghost['at'][g], 'lock')
    def unlock(s, ex, st, args, i):
        s.known(ex, args, '@ggggc_rootsLock')
        gh = st.ghost
        ex.oblige(st, 'the roots lock is held when released', gh['locked'] == bv(1), 'lock')
        gh['locked'] = bv(0); gh['fed'] = gh['fed'] + 1
        gh['head'] = {g: ex.cell(st.mem, ex.gaddr('@' + g), 64).z for g, _, _ in s.lists(ex.off)}
        s.registered(ex, st, 'at unlock')
        return V(bv(0, 32))
    def wait(s, ex, st, args, i):
        s.known(ex, args, '@ggggc_worldBarrier')
        gh = st.ghost
        gh['waits'] = gh['waits'] + 1
        n = simp(gh['waits'])
        ex.oblige(st, 'no lock is held at the world barrier', gh['locked'] == bv(0), 'lock')
        if isnum(n) and n.as_long() == 2:
            ex.oblige(st, 'roots are registered exactly once before the collection starts', gh['fed'] == bv(1), 'lock')
            if 'head' in gh: s.registered(ex, st, 'when the collection starts')
        if isnum(n) and n.as_long() == 4: ex.oblige(st, "the thread's heap is swept before the others continue", gh['swept'] == bv(1), 'lock')
        return V(bv(0, 32))
    def ensures(s, c):
        gh = c.st.ghost
        n = 4 if s.ms(c.ex) else 3
        w = gh['waits']
        out = [('waits for the whole collection or not at all', z3.Or(w == 0, w == n)), ('roots registered once for each collection', gh['fed'] == z3.If(w == 0, bv(0), bv(1))),
               ('no lock held', gh['locked'] == bv(0))]
        if s.ms(c.ex): out.append(('sweeps and forgets its free list once', z3.And(gh['swept'] == gh['fed'], gh['cleared'] == gh['fed'])))
        else: out.append(('allocation starts over in the emptied pools', z3.Or(w == 0, c.new.g('ggggc_pool0') == c.new.g('ggggc_gen0'))))
        return out
class YieldBodyMS(YieldBody):
    modifies = ('r64',)
    globals_mod = YieldBody.globals_mod + ('freeList',)
class Sweep(Contract):
    name = 'sweep'
    params = (('pool', 'raw'),)
    modifies = ('r64',)
    def requires(s, c):
        return [("the thread's own pools", c.z('pool') == c.new.g('ggggc_gen0')), ('after marking, before the next thread runs on', c.st.ghost['waits'] == bv(3))]
    def apply_effects(s, c, st): st.ghost['swept'] = st.ghost['swept'] + 1
class ClearFreeList(Contract):
    name = 'clearFreeList'
    params = ()
    modifies = ('r64',)
    globals_mod = ('freeList',)
    def requires(s, c): return [('after the sweep', c.st.ghost['swept'] == bv(1))]
    def apply_effects(s, c, st): st.ghost['cleared'] = st.ghost['cleared'] + 1
MS = {'@sweep': Sweep(), '@clearFreeList': ClearFreeList()}
