"""Registered roots (C09): globalizing, and what the push macros leave on the
pointer stack (client code in dv/client/)."""
import z3
from ..sym import Contract, bv, V, LoopInv, HEAP_LO, POOL_HI, Break, simp, isnum, FA, Ctx, MemView
from .pools import Seq, I
from .alloc import sel, unchanged

K = z3.Function('frame_word', z3.BitVecSort(64), z3.BitVecSort(64))

class Globalize(Contract):
    """the registrations of the innermost scope move to a frame of their own that
    no pop removes; all other frames, and their order, stay as they are"""
    name = 'ggggc_globalize'
    params = ()
    modifies = ('r64', 'r8', 'r16', 'r32')
    globals_mod = ('ggggc_pointerStack', 'ggggc_pointerStackGlobals')
    q = Seq.const('frame')
    def f(s, c, m, x, n): return m.w(x + bv(c.off['PS.' + n]))
    def setup(s, c, st):
        st.ghost['blk'] = bv(0); st.ghost['blkn'] = bv(0)
    def requires(s, c):
        q, o, m = s.q, c.off, c.old
        i = I(); x = q.nth(i); rng = z3.ULT(i, q.n)
        return [('a scope with registrations', z3.And(z3.UGE(q.n, bv(1)), z3.ULT(q.n, bv(1 << 30)), m.g('ggggc_pointerStack') == q.nth(bv(0)))),
                ('frames', FA([i], z3.Implies(rng, z3.And(x & 7 == 0, z3.UGE(x, bv(HEAP_LO)), z3.ULT(x, bv(POOL_HI)), z3.ULT(s.f(c, m, x, 'size'), bv(1 << 20)), q.idx(x) == i,
                                                    *[K(x + bv(o['PS.' + f])) == bv(j) for j, f in enumerate(('next', 'size'))])), patterns=[x])),
                ('links', FA([i], z3.Implies(rng, s.f(c, m, x, 'next') == z3.If(i == q.n - 1, bv(0), q.nth(i + 1))), patterns=[x])),
                ('earlier globals are last', z3.Or(m.g('ggggc_pointerStackGlobals') == 0, m.g('ggggc_pointerStackGlobals') == q.nth(q.n - 1)))]
    def valid(s, c, z, size, what):
        if size != 8: return z3.BoolVal(False)
        q, gh, o = s.q, c.st.ghost, c.off
        return z3.Or([q.has(z - bv(o['PS.' + f])) for f in ('next', 'size')] + [z3.And(gh['blkn'] != 0, z3.ULT(z - gh['blk'], gh['blkn']))])
    def valid_range(s, c, z, n, what):
        q, gh, o = s.q, c.st.ghost, c.off
        top = q.nth(bv(0)) + bv(o['PS.pointers'])
        return z3.Or(z3.And(z == top, n == s.f(c, c.old, q.nth(bv(0)), 'size') << 3), z3.And(z3.ULE(z - gh['blk'], gh['blkn']), z3.ULE(n, gh['blkn'] - (z - gh['blk']))))
    def external(s, name): return s.malloc if name in ('@malloc', '@calloc') else None
    def malloc(s, ex, st, args, i):
        z = ex.fresh('malloc'); n = simp(args[0].z if len(args) == 1 else args[0].z*args[1].z)
        q = s.q; o = ex.off
        st.assume(z3.And(z & 15 == 0, z3.UGE(z, bv(HEAP_LO)), z3.ULT(z, bv(POOL_HI)), z3.ULT(n, bv(1 << 40)), z3.ULE(z + n, bv(POOL_HI))))
        j = I(); x = q.nth(j)
        m = MemView(ex, ex.mem0)
        end = x + bv(o['PS.pointers']) + ((m.w(x + bv(o['PS.size'])) + 1) << 3)
        st.assume(FA([j], z3.Implies(z3.ULT(j, q.n), z3.Or(z3.ULE(z + n, x), z3.ULE(end, z))), patterns=[x]))
        st.ghost['blk'] = z; st.ghost['blkn'] = n
        return V(z)
    class L(LoopInv):
        name = 'find the last frame'
        def inv(s, c):
            if len(c.vals) != 1: raise Break('loop with %d variables' % len(c.vals))
            x = list(c.vals.values())[0].z
            yield 'a frame', c.con.q.has(x)
            e, a = c.entry.arr('r64'), c.new.arr('r64')
            if not z3.eq(e, a): yield 'frames unchanged', a == e
    def match_loops(s, ex, f, loops): return {l.idx: s.L() for l in loops}
    def ensures(s, c):
        q, gh, o = s.q, c.st.ghost, c.off
        m = c.new
        top, last, z = q.nth(bv(0)), q.nth(q.n - 1), gh['blk']
        n = s.f(c, c.old, top, 'size')
        i = I()
        ptr = lambda mem, x, i: mem.w(x + bv(o['PS.pointers']) + (i << 3))
        return [('the scope stays the innermost', m.g('ggggc_pointerStack') == top),
                ('a new frame', z3.And(z != 0, gh['blkn'] != 0)),
                ('the new frame is last', z3.And(s.f(c, m, last, 'next') == z, s.f(c, m, z, 'next') == 0, m.g('ggggc_pointerStackGlobals') == z)),
                ('it registers what the scope registered', z3.And(s.f(c, m, z, 'size') == n, FA([i], z3.Implies(z3.ULT(i, n), ptr(m, z, i) == ptr(c.old, top, i))))),
                ('nothing is registered twice', s.f(c, m, top, 'size') == 0),
                ('all other registrations unchanged', unchanged(c, 'r64', lambda k: z3.Or(z3.ULT(k - z, gh['blkn']), k == last + bv(o['PS.next']), k == top + bv(o['PS.size']))))]

# --------------------------------------------------- the push macros, in client code
class Push(Contract):
    """at every point of a scope exactly its variables and those of the scopes
    around it are registered, above what was registered on entry; on every way out
    the registrations are those on entry"""
    params = ()
    may_gc = True
    balanced = True
    def external(s, name): return {'@scope': s.scope, '@choose': s.choose}.get(name)
    def choose(s, ex, st, args, i):
        ex.safepoint(st, 'other code')
        return V(ex.fresh('choice', 32))
    def scope(s, ex, st, args, i):
        n = simp(args[0].z).as_long()
        want = [simp(a.z).as_long() for a in args[1:]]
        assert len(want) == n
        o = ex.off
        entry = ex.cell(ex.mem0, ex.gaddr('@ggggc_pointerStack'), 64).z
        cur = simp(ex.cell(st.mem, ex.gaddr('@ggggc_pointerStack'), 64).z)
        got = []
        while isnum(cur) and len(got) <= n:
            f = cur.as_long()
            own = [hi for lo, hi in ex.stackrange if lo <= f < hi]
            size = simp(ex.cell(st.mem, f + o['PS.size'], 64).z) if own else None
            if size is None or not isnum(size): break
            k = size.as_long()
            ex.oblige(st, 'a frame has room for its registrations', f + o['PS.pointers'] + 8*k <= own[0], 'safety')
            got += [simp(ex.cell(st.mem, f + o['PS.pointers'] + 8*j, 64).z) for j in range(min(k, n + 1))]
            cur = simp(ex.cell(st.mem, f + o['PS.next'], 64).z)
        ex.oblige(st, 'below the frames of this function are those of its callers', z3.BoolVal(z3.eq(cur, entry)), 'post')
        g = sorted(x.as_long() for x in got if isnum(x))
        ex.oblige(st, 'exactly the %d variables pushed are registered' % n, z3.BoolVal(g == sorted(want) and len(got) == n), 'post')
        ex.safepoint(st, 'other code')
        return None
    def ensures(s, c):
        return [('registrations are those on entry', c.new.g('ggggc_pointerStack') == c.old.g('ggggc_pointerStack'))]
from .mutator import Yield as _Y
YIELD = {"@ggggc_yield": _Y()}
def _mk(n): return type('P_' + n, (Push,), {'name': n})
PUSH = [_mk('push_%d' % i) for i in range(1, 17)]
MANUAL = [_mk('manual_%d' % i) for i in range(1, 17)]
PUSHN = [_mk('push_n')]
for _c in PUSH + MANUAL + PUSHN: globals()[_c.__name__] = _c
