"""Contracts shared by all mutator-side code: what a client (or a collection
library function) may assume of the allocator and of safe points.

Logical view.  A collected object is named by an identity `b` (its address at
the time a reference was obtained; identities survive moving because the
executor refreshes rooted references at safe points and rejects stale ones).
The ghost map A gives the size in bytes of each object of the heap, 0 for
identities that are not objects."""
import z3
from ..sym import Contract, bv, gcref, okey, V, LoopInv, FA

AS = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64))

def A0(): return z3.Const('A!0', AS)

class Mut(Contract):
    balanced = True
    barriers = True
    may_gc = True
    modifies = ('o8', 'o16', 'o32', 'o64', 'r8', 'r16')
    descs = ()          # names of types whose descriptor slots the function uses
    def cellkind(s, n, off):
        return 'gc' if n.endswith('__descriptorSlot') and off == s.ex_off['Slot.descriptor'] else None
    def root_global(s, ex, a):
        n, off = ex.whichglobal(a)
        return n is not None and n.endswith('__descriptorSlot')
    def setup(s, c, st):
        s.ex_off = c.off
        st.ghost['A'] = A0()
        for n in c.ex.m.globals:
            if n.endswith('__descriptorSlot'):
                c.ex.cell(st.mem, c.ex.gaddr(n) + c.off['Slot.descriptor'], 64)
    def axioms(s, c):
        b = z3.BitVec('b', 64)
        x = z3.Select(A0(), b)
        yield FA([b], z3.Implies(x != 0, z3.And(b & 7 == 0, z3.UGE(b, bv(1 << 32)), z3.ULT(b, bv(0x7f0000000000)))), patterns=[x])
        yield z3.Select(A0(), bv(0)) == 0
    def valid_obj(s, c, p, size, store):
        A = c.st.ghost['A']
        n = z3.Select(A, p.b)
        return z3.And(z3.ULE(bv(size), n), z3.ULE(p.o, n - bv(size)), p.o & bv(size - 1) == 0)
    def valid(s, c, z, size, what):
        # the only raw memory a mutator may touch is the generation byte and the
        # card table of the pool of an object (the write barrier)
        off = c.off
        if 'Pool.gen' not in off: return z3.BoolVal(False)
        o = z & bv(off['POOL_BYTES'] - 1)
        return z3.And(bv(size) == 1, z3.Or(o == bv(off['Pool.gen']),
                      z3.And(z3.UGE(o, bv(off['Pool.remember'])), z3.ULT(o, bv(off['Pool.remember'] + off['CARDS'])))))
    def slot_cell(s, c, t, mem=None):
        return (mem or c.old).g(t + '__descriptorSlot', c.off['Slot.descriptor'])
    def need_descs(s, c):
        A = c.gh['A']
        out = []
        for t in s.descs:
            d = s.slot_cell(c, t)
            size = c.old.g(t + '__descriptorSlot', c.off['Slot.size'])
            # slots are private to the file and only their descriptor field is ever written
            iv = slot_init(c, t)
            out.append(('descriptor slot of %s' % t, z3.And(size == iv)))
            out.append(('descriptor of %s exists' % t, desc_ok(c, d, bv(iv))))
        return out
    def grows(s, c, n='the heap only grows'):
        b = z3.BitVec('b', 64)
        return (n, FA([b], z3.Implies(z3.Select(A0(), b) != 0, z3.Select(c.gh['A'], b) == z3.Select(A0(), b)), patterns=[z3.Select(c.gh['A'], b)]))

def slot_init(c, t):
    g = c.ex.m.globals['@' + t + '__descriptorSlot']
    return g[1][1][2][1][1]

def desc_ok(c, d, size=None, mem=None):
    """d is a descriptor object describing objects of `size` words"""
    m = mem or c.old
    A = c.gh['A']
    f = [d != 0, z3.UGE(z3.Select(A, d), bv(24)), z3.ULT(m.ow(d, c.off['Desc.size']), bv(1 << 27)), z3.UGE(m.ow(d, c.off['Desc.size']), bv(1))]
    if size is not None: f.append(m.ow(d, c.off['Desc.size']) == size)
    return z3.And(f)

def zeroed(st, m, r, lo, hi):
    k = z3.BitVec('k', 96)
    b = z3.Extract(95, 32, k); o = z3.ZeroExt(32, z3.Extract(31, 0, k))
    x = z3.Select(m, k)
    st.assume(FA([k], z3.Implies(z3.And(b == r, z3.UGE(o, bv(lo)), z3.ULT(o, hi)), x == 0), patterns=[x]))

class Alloc(Contract):
    may_gc = True
    retkind = 'gc'
    def cellkind(s, n, off): return None
    def root_global(s, ex, a): return False
    def fresh(s, c, st, bytes_, desc=None):
        A = st.ghost['A']
        r = c.ret.z
        o = z3.BitVec('o', 64)
        st.assume(r != 0)
        st.assume(r & 7 == 0)
        st.assume(z3.And(z3.UGE(r, bv(1 << 32)), z3.ULT(r, bv(0x7f0000000000))))
        st.assume(z3.Select(A, r) == 0)
        st.assume(z3.Select(A0(), r) == 0)
        m = c.new.arr('o64')
        zeroed(st, m, r, c.off['sizeof.Header'], bytes_)
        if desc is not None: st.assume(c.new.ow(r, 0) == desc)
        st.ghost['A'] = z3.Store(A, r, bytes_)

class Malloc(Alloc):
    name = 'ggggc_malloc'
    params = (('descriptor', 'gc'),)
    def requires(s, c):
        return [('a valid descriptor', desc_ok(c, c.z('descriptor')))]
    def apply_effects(s, c, st):
        d = c.z('descriptor')
        s.fresh(c, st, c.old.ow(d, c.off['Desc.size']) << 3, d)

class MallocPA(Alloc):
    name = 'ggggc_mallocPointerArray'
    params = (('sz', 'int'),)
    def requires(s, c):
        return []
    def apply_effects(s, c, st):
        n = c.z('sz')
        st.assume(z3.ULT(n, bv(1 << 26)))      # termination otherwise excluded by the allocator (size fits a pool)
        s.fresh(c, st, (n << 3) + bv(c.off['Arr.as']))
        st.assume(c.new.ow(c.ret.z, 0) != 0)
        # length word: replaces the zero assumed above for that word
    def fresh(s, c, st, bytes_, desc=None):
        A = st.ghost['A']
        r = c.ret.z
        o = z3.BitVec('o', 64)
        st.assume(z3.And(r != 0, r & 7 == 0, z3.UGE(r, bv(1 << 32)), z3.ULT(r, bv(0x7f0000000000)), z3.Select(A, r) == 0, z3.Select(A0(), r) == 0))
        m = c.new.arr('o64')
        zeroed(st, m, r, c.off['Arr.as'], bytes_)
        st.assume(c.new.ow(r, c.off['Arr.length']) == c.z('sz'))
        st.ghost['A'] = z3.Store(A, r, bytes_)

class Yield(Contract):
    name = 'ggggc_yield'
    params = ()
    may_gc = True

COMMON = {'@ggggc_malloc': Malloc(), '@ggggc_mallocPointerArray': MallocPA(), '@ggggc_yield': Yield()}
