"""C12: generic lists.  Abstract value of a list: the finite sequence of its
elements.  Ghost: N(i) = i-th node, idx its inverse, so nodes are distinct."""
import z3
from ..sym import bv, LoopInv, okey, FA
from .mutator import Mut, COMMON, A0

B64 = z3.BitVecSort(64)
MAXLEN = 1 << 40

class Seq:
    """abstract sequence of nodes"""
    def __init__(s, name):
        s.N = z3.Function('N_' + name, B64, B64)
        s.idx = z3.Function('idx_' + name, B64, B64)
        s.n = z3.BitVec('len_' + name, 64)
    def node(s, i): return s.N(i)
    def pats(s, i): return [s.N(i)]
    def own(s, b):
        """b is a node of this list"""
        return z3.And(z3.ULT(s.idx(b), s.n), s.N(s.idx(b)) == b)

class SeqExpr:
    """a sequence described by an expression of index"""
    def __init__(s, n, f, parts=None):
        s.n, s.f = n, f
        s.parts = parts         # [(name, guard(i), node(i), next node(i))]: a partition of the index range
    def node(s, i): return s.f(i)

def cat(X, Y):
    return SeqExpr(X.n + Y.n, lambda i: z3.If(z3.ULT(i, X.n), X.N(i), Y.N(i - X.n)), [
        ('first', lambda i: z3.ULT(i + 1, X.n), X.N, lambda i: X.N(i + 1)),
        ('seam', lambda i: z3.And(i + 1 == X.n), X.N, lambda i: Y.N(bv(0))),
        ('second', lambda i: z3.UGE(i, X.n), lambda i: Y.N(i - X.n), lambda i: Y.N(i - X.n + 1))])

def shape(c, mem, L, S):
    """list object L denotes the node sequence S in memory mem; one (name, formula) each"""
    o = c.off
    A = c.gh['A']
    i = z3.BitVec('i', 64)
    last = S.n - 1
    yield 'length', mem.ow(L, o['List.length']) == S.n
    yield 'head', mem.ow(L, o['List.head']) == z3.If(S.n == 0, bv(0), S.node(bv(0)))
    yield 'tail', mem.ow(L, o['List.tail']) == z3.If(S.n == 0, bv(0), S.node(last))
    ni = S.node(i)
    rng = z3.ULT(i, S.n)
    sz = o['Node.el'] + 8
    nx = mem.ow(ni, o['Node.next'])
    h = isinstance(S, Seq)
    yield 'nodes', FA([i], z3.Implies(rng, z3.And(ni != 0, z3.Select(A, ni) == bv(sz))), patterns=[ni] if h else [])
    for pn, guard, node, nxt in getattr(S, 'parts', None) or []:
        nj = node(i)
        yield 'links, ' + pn, FA([i], z3.Implies(z3.And(rng, guard(i)), z3.And(S.node(i) == nj, mem.ow(nj, o['Node.next']) == z3.If(i + 1 == S.n, bv(0), nxt(i)), z3.Or(i + 1 == S.n, S.node(i + 1) == nxt(i)))))
    if getattr(S, 'parts', None):
        yield 'links, all positions covered', FA([i], z3.Implies(rng, z3.Or([g(i) for _, g, _, _ in S.parts])))
        return
    yield 'links', FA([i], z3.Implies(rng, nx == z3.If(i + 1 == S.n, bv(0), S.node(i + 1))), patterns=[nx] if h else [])

def distinct(S):
    i = z3.BitVec('i', 64)
    return FA([i], z3.Implies(z3.ULT(i, S.n), S.idx(S.N(i)) == i), patterns=[S.N(i)])

def elements_kept(c, S):
    i = z3.BitVec('i', 64)
    o = c.off['Node.el']
    return FA([i], z3.Implies(z3.ULT(i, S.n), c.new.ow(S.N(i), o) == c.old.ow(S.N(i), o)), patterns=[S.N(i)])

def same_elements(c, S2, elt):
    """element i of the new sequence is elt(i)"""
    i = z3.BitVec('i', 64)
    return FA([i], z3.Implies(z3.ULT(i, S2.n), c.new.ow(S2.node(i), c.off['Node.el']) == elt(i)))

def frame(c, touched, words=('o64',)):
    """every word of every object existing before, other than those selected by touched(b, off), is unchanged"""
    k = z3.BitVec('k', 96)
    b = z3.Extract(95, 32, k); off = z3.ZeroExt(32, z3.Extract(31, 0, k))
    n = c.new.arr('o64'); o = c.old.arr('o64')
    return FA([k], z3.Implies(z3.And(z3.Select(A0(), b) != 0, z3.Not(touched(b, off))), z3.Select(n, k) == z3.Select(o, k)), patterns=[z3.Select(n, k)])

class ListFn(Mut):
    descs = ('GGC_ListNode', 'GGC_List')
    lists = ('list',)
    hdr = 8
    def seqs(s): return {n: Seq(n) for n in s.lists}
    def requires(s, c):
        S = s.seqs()
        o = c.off
        out = s.need_descs(c)
        A = c.gh['A']
        for n in s.lists:
            L = c.z(n)
            out.append(('%s is a list object' % n, z3.And(L != 0, z3.Select(A, L) == bv(o['List.tail'] + 8), z3.ULT(S[n].n, bv(MAXLEN)))))
            for nm, f in shape(c, c.old, L, S[n]): out.append(('%s: %s' % (n, nm), f))
            out.append(('%s: nodes are distinct' % n, distinct(S[n])))
        for n in s.lists:
            for m in s.lists:
                if n < m:
                    i = z3.BitVec('i', 64)
                    out.append(('different lists', c.z(n) != c.z(m)))
                    out.append(('the lists share no node', z3.And(
                        FA([i], z3.Implies(z3.ULT(i, S[n].n), z3.Not(S[m].own(S[n].N(i)))), patterns=[S[n].N(i)]),
                        FA([i], z3.Implies(z3.ULT(i, S[m].n), z3.Not(S[n].own(S[m].N(i)))), patterns=[S[m].N(i)]))))
        return out
    def is_list_obj(s, c, b):
        return z3.Or([b == c.z(n) for n in s.lists])
    def post_list(s, c, L, S2, elt, what=''):
        out = [(what + nm, f) for nm, f in shape(c, c.new, L, S2)]
        out.append((what + 'elements', same_elements(c, S2, elt)))
        return out
    def el0(s, c, S): return lambda i: c.old.ow(S.N(i), c.off['Node.el'])
    def listframe(s, c, extra=lambda b: z3.BoolVal(False)):
        S = s.seqs()
        t = lambda b, off: z3.And(z3.Or(z3.Or([c.z(n) == b for n in s.lists]), z3.Or([S[n].own(b) for n in s.lists])), z3.UGE(off, bv(8)))
        return [('nothing else changes', frame(c, t)), s.grows(c)]

class ListPush(ListFn):
    name = 'GGC_ListPush'
    params = (('list', 'gc'), ('value', 'gc'))
    def ensures(s, c):
        S = s.seqs()['list']; L = c.z('list')
        nn = c.new.ow(L, c.off['List.tail'])
        S2 = SeqExpr(S.n + 1, lambda i: z3.If(z3.ULT(i, S.n), S.N(i), nn))
        e0 = s.el0(c, S)
        return s.post_list(c, L, S2, lambda i: z3.If(z3.ULT(i, S.n), e0(i), c.z('value'))) + s.listframe(c) + [
            ('the new node is new', z3.Select(A0(), nn) == 0)]

class ListUnshift(ListFn):
    name = 'GGC_ListUnshift'
    params = (('list', 'gc'), ('value', 'gc'))
    def ensures(s, c):
        S = s.seqs()['list']; L = c.z('list')
        nn = c.new.ow(L, c.off['List.head'])
        S2 = SeqExpr(S.n + 1, lambda i: z3.If(i == 0, nn, S.N(i - 1)))
        e0 = s.el0(c, S)
        return s.post_list(c, L, S2, lambda i: z3.If(i == 0, c.z('value'), e0(i - 1))) + s.listframe(c) + [
            ('the new node is new', z3.Select(A0(), nn) == 0)]

class ListPushList(ListFn):
    name = 'GGC_ListPushList'
    params = (('to', 'gc'), ('from', 'gc'))
    lists = ('to', 'from')
    def ensures(s, c):
        S = s.seqs(); T, F = S['to'], S['from']
        S2 = cat(T, F)
        et, ef = s.el0(c, T), s.el0(c, F)
        return s.post_list(c, c.z('to'), S2, lambda i: z3.If(z3.ULT(i, T.n), et(i), ef(i - T.n)), 'to: ') + \
            s.post_list(c, c.z('from'), SeqExpr(bv(0), lambda i: bv(0)), lambda i: bv(0), 'from: ') + s.listframe(c)

class ListUnshiftList(ListFn):
    name = 'GGC_ListUnshiftList'
    params = (('to', 'gc'), ('from', 'gc'))
    lists = ('to', 'from')
    def ensures(s, c):
        S = s.seqs(); T, F = S['to'], S['from']
        S2 = cat(F, T)
        et, ef = s.el0(c, T), s.el0(c, F)
        return s.post_list(c, c.z('to'), S2, lambda i: z3.If(z3.ULT(i, F.n), ef(i), et(i - F.n)), 'to: ') + \
            s.post_list(c, c.z('from'), SeqExpr(bv(0), lambda i: bv(0)), lambda i: bv(0), 'from: ') + s.listframe(c)

class ListShift(ListFn):
    name = 'GGC_ListShift'
    params = (('list', 'gc'),)
    retkind = 'gc'
    def ensures(s, c):
        S = s.seqs()['list']; L = c.z('list')
        e0 = s.el0(c, S)
        S2 = SeqExpr(z3.If(S.n == 0, bv(0), S.n - 1), lambda i: S.N(i + 1))
        return [('returns the first element (null for the empty list)', c.ret.z == z3.If(S.n == 0, bv(0), e0(bv(0))))] + \
            s.post_list(c, L, S2, lambda i: e0(i + 1)) + s.listframe(c)

class ListInsertAfter(ListFn):
    name = 'GGC_ListInsertAfter'
    params = (('list', 'gc'), ('after', 'gc'), ('value', 'gc'))
    def requires(s, c):
        S = s.seqs()['list']
        return super().requires(c) + [('after is a node of the list', S.own(c.z('after')))]
    def ensures(s, c):
        S = s.seqs()['list']; L = c.z('list')
        a = S.idx(c.z('after'))
        nn = c.new.ow(c.z('after'), c.off['Node.next'])
        S2 = SeqExpr(S.n + 1, lambda i: z3.If(z3.ULE(i, a), S.N(i), z3.If(i == a + 1, nn, S.N(i - 1))))
        e0 = s.el0(c, S)
        return s.post_list(c, L, S2, lambda i: z3.If(z3.ULE(i, a), e0(i), z3.If(i == a + 1, c.z('value'), e0(i - 1)))) + s.listframe(c) + [
            ('the new node is new', z3.Select(A0(), nn) == 0)]

class ListInsertAfterList(ListFn):
    name = 'GGC_ListInsertAfterList'
    params = (('to', 'gc'), ('after', 'gc'), ('from', 'gc'))
    lists = ('to', 'from')
    def requires(s, c):
        S = s.seqs()['to']
        return super().requires(c) + [('after is a node of the list', S.own(c.z('after')))]
    def ensures(s, c):
        S = s.seqs(); T, F = S['to'], S['from']
        a = T.idx(c.z('after'))
        pick = lambda i, t, f: z3.If(z3.ULE(i, a), t(i), z3.If(z3.ULE(i - a - 1, F.n - 1) if False else z3.ULT(i - a - 1, F.n), f(i - a - 1), t(i - F.n)))
        k = a + F.n
        F0 = lambda i: z3.If(F.n == 0, T.N(i + 1), F.N(bv(0)))
        S2 = SeqExpr(T.n + F.n, lambda i: pick(i, T.N, F.N), [
            ('before', lambda i: z3.ULT(i, a), T.N, lambda i: T.N(i + 1)),
            ('at', lambda i: i == a, T.N, F0),
            ('inside', lambda i: z3.And(z3.UGT(i, a), z3.ULT(i, k)), lambda i: F.N(i - a - 1), lambda i: F.N(i - a)),
            ('end', lambda i: z3.And(i == k, F.n != 0), lambda i: F.N(F.n - 1), lambda i: T.N(a + 1)),
            ('after', lambda i: z3.UGT(i, k), lambda i: T.N(i - F.n), lambda i: T.N(i - F.n + 1))])
        et, ef = s.el0(c, T), s.el0(c, F)
        return s.post_list(c, c.z('to'), S2, lambda i: pick(i, et, ef), 'to: ') + \
            s.post_list(c, c.z('from'), SeqExpr(bv(0), lambda i: bv(0)), lambda i: bv(0), 'from: ') + s.listframe(c)

class ListToArray(ListFn):
    name = 'GGC_ListToArray'
    params = (('list', 'gc'),)
    retkind = 'gc'
    class L1(LoopInv):
        name = 'copy elements'
        def inv(s, c):
            S = Seq('list'); o = c.off
            i = c.var('i').z; cur = c.var('curn').z; ret = c.var('ret').z; lst = c.var('list').z
            j = z3.BitVec('j', 64)
            yield 'list pointer', lst == c.z('list')
            yield 'index', z3.ULE(i, S.n)
            yield 'cursor', cur == z3.If(i == S.n, bv(0), S.N(i))
            yield 'array', z3.And(ret != 0, z3.Select(A0(), ret) == 0, z3.Select(c.gh['A'], ret) == (S.n << 3) + bv(o['Arr.as']), z3.ULT(S.n, bv(1 << 26)))
            m = c.new.arr('o64')
            yield 'copied', FA([j], z3.Implies(z3.ULT(j, i), z3.Select(m, okey(ret, bv(o['Arr.as']) + (j << 3))) == c.old.ow(S.N(j), o['Node.el'])))
            yield 'length', c.new.ow(ret, o['Arr.length']) == S.n
            yield 'frame', frame(c, lambda b, off: z3.BoolVal(False))
        def _v(s): pass
    loops = (L1(variant=lambda c0, c1: z3.And(z3.UGT(c1.var('i').z, c0.var('i').z), z3.ULE(c1.var('i').z, Seq('list').n))),)
    def ensures(s, c):
        S = s.seqs()['list']; o = c.off
        j = z3.BitVec('j', 64)
        r = c.ret.z
        e0 = s.el0(c, S)
        return [('returns a new array', z3.And(r != 0, z3.Select(A0(), r) == 0)),
                ('array length', c.new.ow(r, o['Arr.length']) == S.n),
                ('array elements', FA([j], z3.Implies(z3.ULT(j, S.n), c.new.ow(r, bv(o['Arr.as']) + (j << 3)) == e0(j)))),
                ('nothing else changes', frame(c, lambda b, off: z3.BoolVal(False))), s.grows(c)]

ALL = [ListPush, ListUnshift, ListPushList, ListUnshiftList, ListShift, ListInsertAfter, ListInsertAfterList, ListToArray]
