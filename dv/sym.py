"""Symbolic execution of LLVM IR between cut points, producing verification
conditions.  Loops are cut at their headers by contracts (invariants); calls to
functions under contract use the contract only; every path is explored."""
import re, itertools
import z3
from . import ir
from .ir import Unsupported

HEAP_LO = 0x100000000
HEAP_HI = 0x7f0000000000
GLOB = 0x10000000
STACK = 0x7f8000000000
RAWG = 0x7e0000000000       # global arrays indexed by variables live in raw memory
POOL_HI = 0x7d0000000000    # everything the allocator hands out lies below

def bv(n, w=64):
    return z3.BitVecVal(n, w)
def isnum(z):
    return isinstance(z, z3.BitVecNumRef)
def simp(z):
    return z if isnum(z) else z3.simplify(z)
def num(z):
    return z.as_long() if isnum(z) else None

class Break(Exception):
    """the code no longer has the shape the contract talks about (extraction
    break): never a violation, the bounded stand-in decides"""

class V:
    __slots__ = ('z', 'b', 'o', 'ep', 'kind', 'bo')
    def __init__(s, z, b=None, o=None, ep=None, kind=None, bo=None):
        s.z, s.b, s.o, s.ep, s.kind = z, b, o, ep, kind
        s.bo = bo           # z3 Bool form for i1 values
    def __repr__(s):
        return 'V(%s%s%s)' % (s.z, '' if s.b is None else ' b=%s o=%s' % (s.b, s.o), '' if s.ep is None else ' e%d' % s.ep)

def gcref(z, ep):
    return V(z, b=z, o=bv(0), ep=ep, kind='gc')
def mobj(z, kind='mobj'):
    """a pointer to the start of an object outside the collected heap; objects
    of a kind of their own (Contract.regions) have memory of their own"""
    return V(z, b=z, o=bv(0), kind=kind)

WID = {1: 8, 2: 16, 4: 32, 8: 64}
ARR = ['r8', 'r16', 'r32', 'r64', 'o8', 'o16', 'o32', 'o64']
def arrsort(n):
    w = int(n[1:])
    return z3.ArraySort(z3.BitVecSort(64 if n[0] == 'r' else 96), z3.BitVecSort(w))
def okey(b, o):
    return z3.Concat(b, z3.Extract(31, 0, o))

class Mem:
    def __init__(s):
        s.c = {}        # concrete cells (addr, width) -> V
        s.a = {}        # arrays
    def copy(s):
        m = Mem()
        m.c = dict(s.c)
        m.a = dict(s.a)
        return m

class State:
    def __init__(s):
        s.env = {}
        s.mem = None
        s.pc = []
        s.epoch = 0
        s.pend = []
        s.ghost = {}
        s.trace = []
        s.rooted = {}
        s.loops = {}        # header -> LoopVisit active on this path
    def copy(s):
        t = State()
        t.env = dict(s.env); t.mem = s.mem.copy(); t.pc = list(s.pc); t.epoch = s.epoch
        t.pend = list(s.pend); t.ghost = dict(s.ghost); t.trace = list(s.trace)
        t.rooted = s.rooted; t.loops = dict(s.loops)
        return t
    def assume(s, f):
        if f is True or (isinstance(f, z3.BoolRef) and z3.is_true(f)):
            return
        s.pc.append(f)

class Obl:
    __slots__ = ('name', 'pc', 'goal', 'kind', 'trace', 'expect', 'drop')
    def __init__(s, name, pc, goal, kind='post', trace=(), expect='valid'):
        s.name, s.pc, s.goal, s.kind, s.trace, s.expect = name, list(pc), goal, kind, list(trace), expect
        s.drop = ()         # labels of assumptions not needed, probably

class MemView:
    """what contracts see of a memory"""
    def __init__(s, ex, mem, epoch=0):
        s.ex, s.m, s.epoch = ex, mem, epoch
    def arr(s, n): return s.ex.arr(s.m, n)
    def w(s, a): return z3.Select(s.arr('r64'), a.z if isinstance(a, V) else a)
    def b(s, a): return z3.Select(s.arr('r8'), a.z if isinstance(a, V) else a)
    def h(s, a): return z3.Select(s.arr('r16'), a.z if isinstance(a, V) else a)
    def i(s, a): return z3.Select(s.arr('r32'), a.z if isinstance(a, V) else a)
    def ow(s, b, o=0):
        b = b.z if isinstance(b, V) else b
        if isinstance(o, int): o = bv(o)
        return z3.Select(s.arr('o64'), okey(b, o))
    def ob(s, b, o=0):
        b = b.z if isinstance(b, V) else b
        if isinstance(o, int): o = bv(o)
        return z3.Select(s.arr('o8'), okey(b, o))
    def g(s, name, off=0, w=64):
        """global variable cell"""
        a = s.ex.gaddr('@' + name) + off
        return s.ex.cell(s.m, a, w).z
    def cell(s, addr, w=64):
        return s.ex.cell(s.m, addr, w).z

class Ctx:
    hyp = False     # whether a formula asked for is assumed rather than shown
    def __init__(s, ex, con, args, old, new=None, ret=None, st=None, ghosts=None, st0=None):
        s.ex, s.con, s.args = ex, con, args
        s.old = old
        s.new = new if new is not None else old
        s.ret = ret
        s.st = st
        s.gh = ghosts if ghosts is not None else (st.ghost if st else {})
        s.off = ex.off
    def arg(s, n):
        return s.args[n]
    def z(s, n):
        return s.args[n].z
    def var(s, *names):
        return s.ex.lookup_var(s.st, names, s.header)

class Loop:
    def __init__(s, header, body, parent=None):
        s.header, s.body, s.parent = header, body, parent
        s.idx = None

def find_loops(f):
    """natural loops, in reverse-postorder of their headers"""
    order = []
    seen = set()
    def dfs(b):
        stack = [(b, iter(f.blocks[b].succs()))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succs())))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(f.order[0])
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succs():
            preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = n, p
                while x != y:
                    while idx[x] > idx[y]: x = idom[x]
                    while idx[y] > idx[x]: y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if idom[b] == b: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs():
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += preds[x]
            elif idx[s] <= idx[b]:
                raise Unsupported('irreducible loop')
    res = []
    for h in sorted(loops, key=lambda h: f.order.index(h)):
        res.append(Loop(h, loops[h]))
    for l in res:
        ps = [m for m in res if m is not l and l.header in m.body]
        l.parent = min(ps, key=lambda m: len(m.body)) if ps else None
    return res

class Exec:
    def __init__(s, module, contracts, offsets, opts=None):
        s.m = module
        s.contracts = contracts     # name (with @) -> Contract
        s.off = offsets
        s.o = opts or {}
        s.gmap = {}
        s.gnext = GLOB
        s.grange = []
        s.rawgrange = []
        s.rawnext = RAWG
        s.con = None
        s.fresh_n = itertools.count(1)
        s.externs = {}
        s.obls = []
        s.emit = True
        s.solver_checks = 0
        s.mutator = False
        s.fn = None
        s.paths = 0
        s.init_cells = {}
        s.externals_used = set()
        s.contracts_used = set()
        s.inlined = set()

    # ---------------------------------------------------------- names
    def fresh(s, name, w=64):
        n = next(s.fresh_n)
        if w == 0:
            return z3.Bool('%s!%d' % (name, n))
        return z3.BitVec('%s!%d' % (name, n), w)
    def fresharr(s, n):
        return z3.Const('%s!%d' % (n, next(s.fresh_n)), arrsort(n))
    def gaddr(s, name):
        if name not in s.gmap:
            sz = 64
            if name in s.m.globals:
                try: sz = s.m.size(s.m.globals[name][0])
                except Unsupported: sz = 64
            if name[1:] in getattr(s.con, 'rawglobals', ()):
                s.gmap[name] = s.rawnext
                s.rawgrange.append((s.rawnext, s.rawnext + sz, name))
                s.rawnext += (sz + 63)//64*64 + 64
                return s.gmap[name]
            s.gnext = (s.gnext + 63)//64*64
            s.gmap[name] = s.gnext
            s.grange.append((s.gnext, s.gnext + sz, name))
            s.gnext += sz + 64
        return s.gmap[name]
    def whichglobal(s, a):
        for lo, hi, n in s.grange:
            if lo <= a < hi: return n, a - lo
        return None, None

    # --------------------------------------------------------- memory
    def arr(s, mem, n):
        if n not in mem.a:
            mem.a[n] = z3.Const(n + '!0', arrsort(n))
        return mem.a[n]
    def cell(s, mem, a, w):
        k = (a, w)
        if k in mem.c:
            return mem.c[k]
        for (b, x), v in mem.c.items():
            if b < a + w//8 and a < b + x//8:
                raise Unsupported('mixed-size access to a cell')
        n, off = s.whichglobal(a)
        if n is not None:
            iv = s.init_const(n, off, w)
            if iv is not None:
                v = iv
            else:
                key = ('g', n, off, w)
                if key not in s.init_cells:
                    z = z3.BitVec('glob_%s+%d' % (n[1:], off), w)
                    kind = s.con.cellkind(n, off) if getattr(s, 'con', None) else None
                    s.init_cells[key] = gcref(z, 0) if kind == 'gc' else mobj(z) if kind == 'mobj' else V(z)
                v = s.init_cells[key]
        else:
            key = ('s', a, w)
            if key not in s.init_cells:
                s.init_cells[key] = V(z3.BitVec('uninit_%x' % a, w))
            v = s.init_cells[key]
        mem.c[k] = v
        return v
    def init_const(s, n, off, w):
        """initial value of constant globals"""
        g = s.m.globals.get(n)
        if not g or not g[4] or g[1] is None:
            return None
        def walk(ty, val, off):
            t = s.m.resolve(ty)
            if val == ('zero',): return ('int', 0)
            if isinstance(t, (ir.IntT, ir.PtrT)):
                return val if off == 0 else None
            if isinstance(t, ir.ArrT) and val[0] == 'agg':
                es = s.m.size(t.e)
                i = off//es
                return walk(t.e, val[1][i][1], off - i*es)
            if isinstance(t, ir.StructT) and val[0] == 'agg':
                for i in reversed(range(len(t.fields))):
                    o = s.m.offset(t, i)
                    if o <= off:
                        return walk(t.fields[i], val[1][i][1], off - o)
            return None
        v = walk(g[0], g[1], off)
        if v is None: return None
        if v[0] == 'int': return V(bv(v[1], w))
        if v[0] == 'null': return V(bv(0, w))
        return None

    # ------------------------------------------------------ obligations
    def oblige(s, st, name, goal, kind='post'):
        if not s.emit:
            return
        if goal is True:
            goal = z3.BoolVal(True)
        if goal is False:
            goal = z3.BoolVal(False)
        s.obls.append(Obl('%s: %s' % (s.fn.name[1:], name), st.pc, goal, kind, st.trace))
        s.obls[-1].drop = s.con.unneeded(name)

    def feasible(s, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        sol = z3.SimpleSolver() if False else z3.Solver()
        sol.set('timeout', 300)
        for p in st.pc:
            if not has_quant(p):
                sol.add(p)
        sol.add(c)
        s.solver_checks += 1
        return sol.check() != z3.unsat

    def check_addr(s, st, p, size, what):
        z = p.z
        g = z3.And(z3.UGE(z, bv(HEAP_LO)), z3.ULT(z, bv(HEAP_HI)))
        if size > 1:
            g = z3.And(g, z3.Extract(size.bit_length() - 2, 0, z) == 0)
        v = s.con.valid(Ctx(s, s.con, s.args, s.mem0view, MemView(s, st.mem), st=st), z, size, what)
        s.oblige(st, 'heap address (%s)' % what, g, 'safety')
        if v is not None:
            rg = [z3.And(z3.UGE(z, bv(lo)), z3.ULE(z, bv(hi - size))) for lo, hi, n in s.rawgrange]
            if rg: v = z3.Or([v] + rg)
            s.oblige(st, 'access in a permitted region (%s)' % what, v, 'safety')

    def stale(s, st, v, what):
        if v.ep is not None and v.ep < st.epoch:
            s.oblige(st, 'no use of an unrooted pointer after a possible collection (%s)' % what, v.z == 0, 'rooting')

    def load(s, st, p, ty, vol=False, text=''):
        t = s.m.resolve(ty)
        isptr = isinstance(t, ir.PtrT)
        if not isptr and not isinstance(t, ir.IntT):
            raise Unsupported('load of %r' % ty)
        size = s.m.size(t)
        w = size*8
        z = simp(p.z)
        s.stale(st, p, text)
        if isnum(z) and not RAWG <= z.as_long() < HEAP_HI:
            a = z.as_long()
            if not s.concrete_ok(a, size):
                s.oblige(st, 'no access through a null or wild pointer (%s)' % text, False, 'safety')
                return None
            if vol:
                return V(s.fresh('volatile', w))
            return s.cell(st.mem, a, w)
        if p.b is not None:
            v = z3.Select(s.arr(st.mem, '%s%d' % (s.con.regions.get(p.kind, 'o'), w)), okey(p.b, p.o))
            s.oblige(st, 'no access through a null pointer (%s)' % text, p.b != 0, 'safety')
            g = s.con.valid_obj(Ctx(s, s.con, s.args, s.mem0view, MemView(s, st.mem), st=st), p, size, False)
            if g is not None:
                s.oblige(st, 'access inside a live object (%s)' % text, g, 'safety')
            if isptr:
                k = s.con.loadkind(p)
                if k == 'gc': return gcref(v, st.epoch)
                if k == 'mobj' or k in s.con.regions: return mobj(v, k)
            return V(v)
        s.check_addr(st, p, size, 'load' )
        v = z3.Select(s.arr(st.mem, 'r%d' % w), p.z)
        if vol:
            v = s.fresh('volatile', w)
        if isptr:
            k = s.con.loadkind(p)
            if k == 'gc': return gcref(v, st.epoch)
            if k == 'mobj': return mobj(v)
        return V(v)

    def concrete_ok(s, a, size):
        n, off = s.whichglobal(a)
        if n is not None: return True
        for lo, hi in s.stackrange:
            if lo <= a and a + size <= hi: return True
        return False

    def store(s, st, p, v, ty, text=''):
        t = s.m.resolve(ty)
        size = s.m.size(t)
        w = size*8
        z = simp(p.z)
        s.stale(st, p, text)
        if isnum(z) and not RAWG <= z.as_long() < HEAP_HI:
            a = z.as_long()
            if not s.concrete_ok(a, size):
                s.oblige(st, 'no write through a null or wild pointer (%s)' % text, False, 'safety')
                return False
            for k in [k for k in st.mem.c if k != (a, w) and k[0] < a + size and a < k[0] + k[1]//8]:
                del st.mem.c[k]
            st.mem.c[(a, w)] = v
            return True
        val = v.z
        if p.b is not None:
            s.stale(st, v, 'stored: ' + text)
            s.oblige(st, 'no write through a null pointer (%s)' % text, p.b != 0, 'safety')
            g = s.con.valid_obj(Ctx(s, s.con, s.args, s.mem0view, MemView(s, st.mem), st=st), p, size, True)
            if g is not None:
                s.oblige(st, 'write inside a live object (%s)' % text, g, 'safety')
            n = '%s%d' % (s.con.regions.get(p.kind, 'o'), w)
            if p.kind in s.con.regions: s.con.on_store(s, st, p, v)
            st.mem.a[n] = z3.Store(s.arr(st.mem, n), okey(p.b, p.o), val)
            if p.kind == 'gc' and s.con.barriers and isinstance(t, ir.PtrT) and not (isnum(simp(val)) and val.as_long() == 0):
                if v.kind == 'gc' or v.kind is None:
                    if s.con.needs_barrier(p):
                        st.pend.append((p.b, text))
            return True
        s.check_addr(st, p, size, 'store')
        s.con.on_store(s, st, p, v)
        n = 'r%d' % w
        st.mem.a[n] = z3.Store(s.arr(st.mem, n), p.z, val)
        return True

    # --------------------------------------------------- GC safe points
    def check_barriers(s, st, where):
        if 'Pool.gen' not in s.off: st.pend = []
        for b, text in st.pend:
            pool = b & bv(~(s.off['POOL_BYTES'] - 1) & (2**64 - 1))
            gen = z3.Select(s.arr(st.mem, 'r8'), pool + bv(s.off['Pool.gen']))
            card = z3.LShR(b & bv(s.off['POOL_BYTES'] - 1), s.off['CARD_SIZE'])
            rem = z3.Select(s.arr(st.mem, 'r8'), pool + bv(s.off['Pool.remember']) + card)
            s.oblige(st, 'pointer store recorded for the generational collector before %s (%s)' % (where, text),
                     z3.Or(gen == 0, rem != 0), 'barrier')
        st.pend = []

    def rooted_cells(s, st, out=None):
        """walk the pointer stack (concrete frames only)"""
        a = s.gaddr('@ggggc_pointerStack')
        cells = set()
        seen = set()
        if (a, 64) not in st.mem.c:
            return cells
        cur = simp(st.mem.c[(a, 64)].z)
        while isnum(cur):
            f = cur.as_long()
            if f in seen or f == 0: break
            seen.add(f)
            n = simp(s.cell(st.mem, f + s.off['PS.size'], 64).z)
            if not isnum(n): break
            for i in range(n.as_long()):
                c = simp(s.cell(st.mem, f + s.off['PS.pointers'] + 8*i, 64).z)
                if isnum(c): cells.add(c.as_long())
                if out is not None: out.append(c)
            cur = simp(s.cell(st.mem, f + s.off['PS.next'], 64).z)
        return cells

    def safepoint(s, st, why, extra=()):
        """a collection may happen here: logical (non-moving) view"""
        s.check_barriers(st, why)
        st.epoch += 1
        roots = []
        cells = s.rooted_cells(st, roots) | set(s.extra_roots) | set(extra)
        s.con.at_safepoint(s, st, roots)
        for k, v in list(st.mem.c.items()):
            if v.ep is not None and v.kind == 'gc':
                if k[0] in cells or s.con.root_global(s, k[0]):
                    if v.ep == st.epoch - 1:
                        # only a pointer to the object's own start is followed correctly
                        if v.b is v.z or z3.eq(v.b, v.z):
                            st.mem.c[k] = V(v.z, v.b, v.o, st.epoch, v.kind)
        # the collector rewrites generation numbers and cards
        for n in ('r8', 'r16'):
            st.mem.a[n] = s.fresharr(n)
        # collected-object contents are unchanged (seen through their identity)

    # ---------------------------------------------------------- values
    def val(s, st, ty, v):
        k = v[0]
        t = s.m.resolve(ty) if not isinstance(ty, ir.OtherT) else ty
        w = 64 if isinstance(t, ir.PtrT) else t.w if isinstance(t, ir.IntT) else 64
        if k == 'local':
            if v[1] not in st.env:
                raise Unsupported('undefined value %s' % v[1])
            return st.env[v[1]]
        if k == 'int': return V(bv(v[1], w))
        if k in ('null', 'zero'): return V(bv(0, w))
        if k == 'undef': return V(s.fresh('undef', w))
        if k == 'global' and v[1][1:] in s.con.objglobals: return mobj(bv(s.gaddr(v[1])), s.con.objglobals[v[1][1:]])
        if k == 'global': return V(bv(s.gaddr(v[1])), kind='gctab' if v[1] in getattr(s.con, 'gctabs', ()) else None)
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = s.val(st, v[3][0][0], v[3][0][1])
                return s.gep(st, v[2], base, v[3][1:])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                a = s.val(st, v[2][0], v[2][1])
                return s.cast(op, v[2][0], a, v[3])
            a = s.val(st, *v[2]); b = s.val(st, *v[3])
            return s.binop(op, a, b)
        raise Unsupported('value %r' % (v,))

    def gep(s, st, ety, base, idx):
        off = bv(0)
        ty = ety
        for n, (ity, iv) in enumerate(idx):
            i = s.val(st, ity, iv)
            iz = i.z
            if iz.size() < 64: iz = z3.SignExt(64 - iz.size(), iz)
            if n == 0:
                off = off + iz*bv(s.m.size(ty))
            else:
                t = s.m.resolve(ty)
                if isinstance(t, ir.StructT):
                    k = simp(iz).as_long()
                    off = off + bv(s.m.offset(t, k))
                    ty = t.fields[k]
                elif isinstance(t, ir.ArrT):
                    off = off + iz*bv(s.m.size(t.e))
                    ty = t.e
                else:
                    raise Unsupported('gep')
        off = simp(off)
        return s.padd(base, off)
    def padd(s, base, off):
        if isnum(off) and off.as_long() == 0: return base
        z = simp(base.z + off)
        if base.b is not None:
            return V(z, base.b, simp(base.o + off), base.ep, base.kind)
        return V(z, ep=base.ep, kind=base.kind if base.kind in ('gctab', 'slot') else None)

    def cast(s, op, fty, a, tty):
        t = s.m.resolve(tty)
        w = 64 if isinstance(t, ir.PtrT) else t.w
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            if a.z.size() == w: return a
            if a.z.size() > w: return V(z3.Extract(w - 1, 0, a.z), ep=a.ep)
            return V(z3.ZeroExt(w - a.z.size(), a.z), ep=a.ep)
        fw = a.z.size()
        if op == 'zext':
            if a.bo is not None:
                return V(z3.If(a.bo, bv(1, w), bv(0, w)))
            return V(simp(z3.ZeroExt(w - fw, a.z)), ep=a.ep)
        if op == 'sext':
            if a.bo is not None:
                return V(z3.If(a.bo, bv(-1, w), bv(0, w)))
            return V(simp(z3.SignExt(w - fw, a.z)), ep=a.ep)
        if op == 'trunc':
            z = simp(z3.Extract(w - 1, 0, a.z))
            return V(z, ep=a.ep)
        raise Unsupported(op)

    def binop(s, op, a, b, exact=False):
        x, y = a.z, b.z
        ep = None
        if a.ep is not None or b.ep is not None:
            ep = min(e for e in (a.ep, b.ep) if e is not None)
        if op == 'add':
            if a.b is not None and b.b is None: return s.padd(a, y)
            if b.b is not None and a.b is None: return s.padd(b, x)
            return V(simp(x + y), ep=ep)
        if op == 'sub':
            if a.b is not None and b.b is None: return s.padd(a, simp(-y))
            if a.b is not None and b.b is not None and z3.eq(a.b, b.b):
                return V(simp(a.o - b.o))
            return V(simp(x - y), ep=ep)
        if op == 'mul': return V(simp(x*y), ep=ep)
        k = num(y)
        if op == 'udiv':
            if k is not None and k & (k - 1) == 0 and k: return V(simp(z3.LShR(x, k.bit_length() - 1)), ep=ep)
            return V(z3.UDiv(x, y), ep=ep)
        if op == 'urem':
            if k is not None and k & (k - 1) == 0 and k: return V(simp(x & (k - 1)), ep=ep)
            return V(z3.URem(x, y), ep=ep)
        if op == 'sdiv':
            if k is not None and k > 0 and k & (k - 1) == 0 and k < 2**62:
                sh = k.bit_length() - 1
                if exact:
                    return V(simp(x >> sh), ep=ep)
                return V(simp((x + z3.If(x < 0, bv(k - 1, x.size()), bv(0, x.size()))) >> sh), ep=ep)
            return V(x / y, ep=ep)
        if op == 'srem': return V(z3.SRem(x, y), ep=ep)
        if op == 'shl': return V(simp(x << y), ep=ep)
        if op == 'lshr': return V(simp(z3.LShR(x, y)), ep=ep)
        if op == 'ashr': return V(simp(x >> y), ep=ep)
        if a.bo is not None and b.bo is not None:
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a.bo, b.bo)
            return s.boolV(f)
        if op == 'xor' and x.size() == 1 and a.bo is not None and num(simp(y)) == 1:
            return s.boolV(z3.Not(a.bo))
        if op == 'and': z = x & y
        elif op == 'or': z = x | y
        elif op == 'xor': z = x ^ y
        else: raise Unsupported(op)
        kind = None
        if op == 'and' and k is not None:
            # clearing low bits of an object pointer keeps it a pointer to the object only if
            # they were zero; treat as raw with the same epoch
            pass
        return V(simp(z), ep=ep)
    def boolV(s, f):
        f = z3.simplify(f)
        return V(z3.If(f, bv(1, 1), bv(0, 1)), bo=f)
    def asbool(s, v):
        if v.bo is not None: return v.bo
        return v.z == 1 if v.z.size() == 1 else v.z != 0

    def icmp(s, pred, a, b):
        x, y = a.z, b.z
        if a.bo is not None and pred in ('eq', 'ne') and num(simp(y)) is not None:
            f = a.bo if (num(simp(y)) == 1) == (pred == 'eq') else z3.Not(a.bo)
            return s.boolV(f)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return s.boolV(f)

    # ------------------------------------------------------- execution
    def verify(s, name, con):
        """generate all obligations of function `name` under contract `con`"""
        if name not in s.m.funcs:
            raise Break('function %s not found' % name)
        f = ir.force(s.m.funcs[name])
        s.fn = f
        s.con = con
        s.loops = find_loops(f)
        s.headers = {l.header: l for l in s.loops}
        for i, l in enumerate(s.loops): l.idx = i
        con.loopmap = con.match_loops(s, f, s.loops)
        s.mod = {}          # header -> set of modified keys
        for it in range(12):
            s.emit = False
            s.obls = []
            s.modchanged = False
            s.run_once(f, con)
            if not s.modchanged: break
        else:
            raise Break('loop summaries did not stabilise')
        s.emit = True
        s.obls = []
        s.paths = 0
        s.run_once(f, con)
        # vacuity: the function's entry assumptions must be satisfiable and some path must return
        return s.obls

    def run_once(s, f, con):
        s.fresh_n = itertools.count(1)
        s.init_cells = {}
        s.allocas = {}
        s.stackrange = []
        s.stacknext = STACK
        s.extra_roots = set()
        s.rootslots = []
        s.seen_cut = {}
        st = State()
        st.mem = Mem()
        for n in ARR: s.arr(st.mem, n)
        args = {}
        if len(con.params) != len(f.params):
            raise Break('parameters of %s changed' % f.name)
        for (ty, pn), (cn, kind) in zip(f.params, con.params):
            t = s.m.resolve(ty)
            if isinstance(t, (ir.IntT)) and kind in ('int', 'raw'):
                v = V(z3.BitVec('arg_' + cn, t.w))
            elif isinstance(t, ir.PtrT) or (isinstance(t, ir.IntT) and t.w == 64):
                z = z3.BitVec('arg_' + cn, 64)
                if kind == 'gc': v = gcref(z, 0)
                elif kind == 'slotp': v = V(z, kind='slot')
                elif kind == 'mobj': v = mobj(z)
                elif kind == 'slot' or kind == 'rootslot':
                    # pointer to a variable of the caller
                    a = s.newstack(8)
                    iv = z3.BitVec('slot_' + cn, 64)
                    st.mem.c[(a, 64)] = gcref(iv, 0) if kind == 'rootslot' else V(iv)
                    if kind == 'rootslot': s.rootslots.append((cn, a))
                    v = V(bv(a))
                elif kind == 'null':
                    v = V(bv(0))
                else: v = V(z)
            else:
                raise Break('parameter type of %s changed' % f.name)
            args[cn] = v
            st.env[pn] = v
        s.args = args
        s.mem0 = st.mem.copy()
        s.mem0view = MemView(s, s.mem0)
        ctx = Ctx(s, con, args, s.mem0view, s.mem0view, st=st)
        con.setup(ctx, st)
        s.mem0 = st.mem.copy()
        s.mem0view = MemView(s, s.mem0)
        ctx = Ctx(s, con, args, s.mem0view, s.mem0view, st=st)
        for ax in con.axioms(ctx): st.assume(ax)
        for n, r in con.requires(ctx): st.assume(r)
        s.ghost0 = dict(st.ghost)
        s.st0 = st
        if s.emit:
            s.obls.append(Obl('%s: precondition is satisfiable' % f.name[1:], st.pc, z3.BoolVal(False), 'vacuity', [], 'sat'))
        s.nret = 0
        s.retpcs = []
        work = [(st, f.order[0], None)]
        rank = s.ranks(f) if con.merge else None
        while work:
            if rank is None: st, bn, prev = work.pop()
            else:
                # all states at the earliest block, those of back edges apart
                bn = min((w[1] for w in work), key=lambda b: rank[b])
                at = [w for w in work if w[1] == bn]
                work = [w for w in work if w[1] != bn]
                back = [w for w in at if bn in s.headers and w[2] in s.headers[bn].body]
                fwd = [w for w in at if not any(w is x for x in back)]
                groups = s.mergeall(bn, back) + s.mergeall(bn, fwd)
                work += groups[1:]
                st, bn, prev = groups[0]
            s.paths += 1
            if s.paths > 20000: raise Break('too many paths')
            work.extend(s.run_block(st, bn, prev))
        if s.emit:
            if not s.nret and not con.noreturn:
                s.obls.append(Obl('%s: some path returns' % f.name[1:], [], z3.BoolVal(False), 'post', []))
            elif s.retpcs:
                # at least one returning path must be consistent
                ps = sorted(s.retpcs, key=len)
                for pc in ps if len(ps) <= 8 else ps[:4] + ps[-4:]:
                    s.obls.append(Obl('%s: some returning path is reachable' % f.name[1:], pc, z3.BoolVal(False), 'vacuity', [], 'sat'))

    # ------------------------------------------------------ joining paths
    def ranks(s, f):
        """reverse postorder, with loops before what follows them"""
        def succs(b):
            ls = [l.body for l in s.loops if b in l.body]
            return iter(sorted(f.blocks[b].succs(), key=lambda x: -sum(x not in l for l in ls)))
        order = []; seen = {f.order[0]}
        st = [(f.order[0], succs(f.order[0]))]
        while st:
            n, it = st[-1]
            for b in it:
                if b not in seen:
                    seen.add(b); st.append((b, succs(b))); break
            else:
                order.append(n); st.pop()
        return {b: i for i, b in enumerate(order[::-1])}
    def phivals(s, st, bn, prev):
        newv = {}
        for i in s.phis(bn):
            for v, l in i.a:
                if l == prev:
                    newv[i.res] = s.val(st, i.ty, v)
                    break
            else: raise Unsupported('phi without predecessor')
        return newv
    def mergeall(s, bn, ws):
        """[(state, block, previous block or its phi values)] with the states that can be joined into one"""
        out = []
        for st, b, prev in ws:
            e = (st, b, prev if isinstance(prev, tuple) else (prev, s.phivals(st, b, prev)))
            for k, o in enumerate(out):
                m = s.merge2(o, e)
                if m is not None:
                    out[k] = m
                    break
            else: out.append(e)
        return out
    def mergeV(s, c, a, b):
        if a is b: return a
        if a.kind != b.kind or a.ep != b.ep or (a.b is None) != (b.b is None) or (a.bo is None) != (b.bo is None) or a.z.sort() != b.z.sort(): return None
        if a.bo is not None: return a if z3.eq(a.bo, b.bo) else s.boolV(z3.If(c, a.bo, b.bo))
        ite = lambda x, y: x if z3.eq(x, y) else z3.If(c, x, y)
        if a.b is None: return a if z3.eq(a.z, b.z) else V(ite(a.z, b.z), ep=a.ep, kind=a.kind)
        return V(ite(a.z, b.z), b=ite(a.b, b.b), o=ite(a.o, b.o), ep=a.ep, kind=a.kind)
    def merge2(s, x, y):
        (p, bn, (pp, pv)), (q, _, (qp, qv)) = x, y
        if p.epoch != q.epoch or len(p.pend) != len(q.pend) or any(a is not b and not (z3.eq(a[0], b[0]) and a[1] == b[1]) for a, b in zip(p.pend, q.pend)): return None
        if p.rooted is not q.rooted or set(p.loops) != set(q.loops) or any(p.loops[k] is not q.loops[k] for k in p.loops): return None
        if set(p.ghost) != set(q.ghost): return None
        c = s.fresh('path', 0)
        r = State()
        r.epoch, r.pend, r.rooted, r.loops = p.epoch, list(p.pend), p.rooted, dict(p.loops)
        r.trace = p.trace + ['~']
        for k in p.env:
            if k in q.env:
                v = s.mergeV(c, p.env[k], q.env[k])
                if v is not None: r.env[k] = v
        vals = {}
        for k in pv:
            vals[k] = s.mergeV(c, pv[k], qv[k])
            if vals[k] is None: return None
        for k, v in p.ghost.items():
            w = q.ghost[k]
            if v is w or isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and z3.eq(v, w): r.ghost[k] = v
            elif isinstance(v, z3.ExprRef) and isinstance(w, z3.ExprRef) and v.sort() == w.sort(): r.ghost[k] = z3.If(c, v, w)
            else: return None
        r.mem = Mem()
        for n in set(p.mem.a) | set(q.mem.a):
            a, b = s.arr(p.mem, n), s.arr(q.mem, n)
            r.mem.a[n] = a if z3.eq(a, b) else z3.If(c, a, b)
        for k in set(p.mem.c) | set(q.mem.c):
            v = s.mergeV(c, s.cell(p.mem, *k), s.cell(q.mem, *k))
            if v is None: return None
            r.mem.c[k] = v
        n = 0
        while n < len(p.pc) and n < len(q.pc) and (p.pc[n] is q.pc[n] or z3.eq(p.pc[n], q.pc[n])): n += 1
        r.pc = list(p.pc[:n])
        if len(p.pc) > n: r.pc.append(z3.Implies(c, z3.And(p.pc[n:])))
        if len(q.pc) > n: r.pc.append(z3.Implies(z3.Not(c), z3.And(q.pc[n:])))
        if pp != qp: pp = '~back' if bn in s.headers and bn in p.loops and (pp == '~back' or pp in s.headers[bn].body) else '~'
        return r, bn, (pp, vals)

    def newstack(s, size):
        a = s.stacknext
        s.stackrange.append((a, a + size))
        s.stacknext += (size + 63)//64*64 + 64
        return a

    def phis(s, b):
        return [i for i in s.fn.blocks[b].ins if i.op == 'phi']

    def run_block(s, st, bn, prev):
        blk = s.fn.blocks[bn]
        st.trace.append(bn)
        ph = s.phis(bn)
        if isinstance(prev, tuple): prev, newv = prev
        else: newv = s.phivals(st, bn, prev)
        if bn in s.headers:
            lp = s.headers[bn]
            inside = prev in lp.body or prev == '~back'
            if inside:
                s.backedge(st, lp, newv)
                return []
            # leaving/entering: drop visits of other loops that do not contain this block
            st.env.update(newv)
            if not s.enter_loop(st, lp, newv):
                return []
        else:
            st.env.update(newv)
        for i in blk.ins[len(ph):]:
            r = s.step(st, i)
            if r is None: continue
            if r == 'dead': return []
            out = []
            for x in r:
                if len(x) == 3 and x[2] == 'resume':
                    # call that split the state: resume after this instruction
                    out.extend(s.resume(x[0], bn, i))
                else:
                    out.append((x[0], x[1], bn))
            return out
        raise Unsupported('block without terminator')

    def resume(s, st, bn, ins):
        blk = s.fn.blocks[bn]
        k = blk.ins.index(ins)
        for i in blk.ins[k+1:]:
            r = s.step(st, i)
            if r is None: continue
            if r == 'dead': return []
            out = []
            for x in r:
                if len(x) == 3 and x[2] == 'resume':
                    out.extend(s.resume(x[0], bn, i))
                else:
                    out.append((x[0], x[1], bn))
            return out
        return []

    # ----------------------------------------------------------- loops
    def lctx(s, st, lp, entry_mem, vals):
        c = Ctx(s, s.con, s.args, s.mem0view, MemView(s, st.mem), st=st)
        c.header = lp.header
        c.vals = vals
        c.lp = lp
        c.entry = entry_mem
        return c

    def inv(s, c, lp):
        li = s.con.loopmap.get(lp.idx)
        if li is None: return []
        try:
            return list(li.inv(c))
        except KeyError as e:
            raise Break('loop contract refers to missing %s' % e)

    def enter_loop(s, st, lp, vals):
        h = lp.header
        li = s.con.loopmap.get(lp.idx)
        if li is not None and li.ghosts:
            c = s.lctx(st, lp, None, vals)
            st.ghost.update(li.ghost_init(c))
        c = s.lctx(st, lp, MemView(s, st.mem), vals)
        for n, g in s.inv(c, lp):
            s.oblige(st, 'loop %s invariant on entry: %s' % (lp_name(lp, s.con), n), g, 'inv-entry')
        if li is not None and li.cut:
            # modular cut point: explore once from a generic state
            if h in s.seen_cut: return False
            s.seen_cut[h] = True
            st.pc = list(s.st0.pc)
            for k in list(st.env):
                if k in vals: continue
                v0 = st.env[k]
                if k in [p for _, p in s.fn.params] or li.keep(k, v0): continue
                z = simp(v0.z)
                if isnum(z): continue
                if v0.b is not None:
                    nz = s.fresh('cut', 64); st.env[k] = gcref(nz, st.epoch) if v0.kind == 'gc' and z3.eq(v0.b, v0.z) else V(nz)
                else:
                    st.env[k] = V(s.fresh('cut', v0.z.size()))
        mod = s.mod.setdefault(h, set())
        entry = MemView(s, st.mem.copy())
        old = {}
        # havoc phis
        for i in s.phis(h):
            t = s.m.resolve(i.ty)
            w = 64 if isinstance(t, ir.PtrT) else t.w
            base = i.res[1:]
            v0 = vals[i.res]
            z = s.fresh(base, w)
            kind = v0.kind
            if li is not None:
                kind = li.phikind(base, kind, s, v0)
            if isinstance(t, ir.PtrT) and kind == 'gc' or (('phigc', i.res) in mod):
                stalep = ('stale', i.res) in mod
                v = gcref(z, st.epoch - 1 if stalep else st.epoch)
            elif kind == 'mobj' or kind in s.con.regions: v = mobj(z, kind)
            else: v = V(z)
            if v0.kind == 'gc' and v0.ep is not None and v0.ep < st.epoch and ('stale', i.res) not in mod:
                mod.add(('stale', i.res)); s.modchanged = True
            st.env[i.res] = v
            old[i.res] = v
        if ('epoch',) in mod: s.check_barriers(st, 'a loop that may collect')
        # havoc modified memory
        for k in sorted(mod, key=repr):
            if k[0] == 'arr':
                st.mem.a[k[1]] = s.fresharr(k[1])
            elif k[0] == 'cell':
                a, w = k[1], k[2]
                v0 = s.cell(st.mem, a, w)
                z = s.fresh('cell_%x' % a, w)
                if v0.kind == 'gc' or ('cellgc', a) in mod:
                    stalec = ('stalecell', a) in mod
                    st.mem.c[(a, w)] = gcref(z, st.epoch - 1 if stalec else st.epoch)
                elif v0.kind == 'mobj': st.mem.c[(a, w)] = mobj(z)
                else: st.mem.c[(a, w)] = V(z)
            elif k[0] == 'epoch':
                pass
        if ('pend',) in mod and False:
            pass
        if ('epoch',) in mod:
            # a collection may have happened in an earlier iteration: everything
            # held from before the loop and not rooted is stale
            st.epoch += 1
            cells = s.rooted_cells(st) | set(s.extra_roots)
            for k, v in list(st.mem.c.items()):
                if v.ep is not None and v.kind == 'gc':
                    if v.ep == st.epoch - 1 and (k[0] in cells or s.con.root_global(s, k[0]) or ('stalecell', k[0]) not in mod):
                        st.mem.c[k] = V(v.z, v.b, v.o, st.epoch, v.kind)
            for r, v in old.items():
                if v.ep is not None and ('stale', r) not in mod:
                    v = V(v.z, v.b, v.o, st.epoch, v.kind)
                    st.env[r] = v; old[r] = v
        if li is not None and li.ghosts:
            for g in li.ghosts:
                st.ghost[g] = li.ghost_fresh(s, g, st.ghost.get(g))
        c = s.lctx(st, lp, entry, old)
        c.hyp = True
        for n, g in s.inv(c, lp):
            st.assume(g)
        st.loops[h] = dict(mem=st.mem.copy(), epoch=st.epoch, entry=entry, ghost=dict(st.ghost), vals=dict(old), npend=len(st.pend), pcn=len(st.pc), env=dict(st.env))
        if s.emit:
            s.obls.append(Obl('%s: loop %s invariant is satisfiable' % (s.fn.name[1:], lp_name(lp, s.con)), st.pc, z3.BoolVal(False), 'vacuity', list(st.trace), 'sat'))
        return True

    def backedge(s, st, lp, newv):
        h = lp.header
        if h not in st.loops:
            raise Unsupported('back edge without entry')
        L = st.loops[h]
        mod = s.mod[h]
        def note(k):
            if k not in mod:
                mod.add(k); s.modchanged = True
        for n, a in st.mem.a.items():
            if not z3.eq(a, s.arr(L['mem'], n)): note(('arr', n))
        for k, v in st.mem.c.items():
            if k in L['mem'].c:
                o = L['mem'].c[k]
                if not z3.eq(simp(o.z), simp(v.z)):
                    note(('cell', k[0], k[1]))
                if v.kind == 'gc':
                    if o.kind != 'gc' and not (isnum(simp(v.z))): note(('cellgc', k[0])); note(('cell', k[0], k[1]))
                    if v.ep < st.epoch: note(('stalecell', k[0]))
            else:
                # first touched inside the loop: initial value unless written
                n, off = s.whichglobal(k[0])
                key = ('g', n, off, k[1]) if n else ('s', k[0], k[1])
                iv = s.init_cells.get(key)
                if iv is None or not z3.eq(iv.z, v.z):
                    note(('cell', k[0], k[1]))
        if st.epoch != L['epoch']: note(('epoch',))
        for r, v in newv.items():
            if v.kind == 'gc':
                if L['vals'][r].kind != 'gc': note(('phigc', r))
                if v.ep is not None and v.ep < st.epoch: note(('stale', r))
        if len(st.pend) > L['npend']:
            # barriers pending over a back edge: settle them here
            s.check_barriers(st, 'the next iteration')
        li = s.con.loopmap.get(lp.idx)
        env0 = st.env
        st2 = st.copy()
        st2.env.update(newv)
        if li is not None and li.ghosts:
            c = s.lctx(st2, lp, L['entry'], newv)
            c.head = MemView(s, L['mem']); c.headvals = L['vals']; c.headghost = L['ghost']
            st2.ghost.update(li.ghost_step(c))
        # ghosts the invariant does not carry keep their value at the loop's head
        for k, v in st.ghost.items():
            if li is not None and k in li.ghosts: continue
            o = L['ghost'].get(k)
            if o is v or not isinstance(v, z3.ExprRef): continue
            if not isinstance(o, z3.ExprRef):
                raise Break('ghost %s first set inside a loop' % k)
            if not z3.eq(simp(o), simp(v)):
                s.oblige(st2, 'loop %s leaves ghost %s alone' % (lp_name(lp, s.con), k), o == v, 'inv-step')
        c = s.lctx(st2, lp, L['entry'], newv)
        c.head = MemView(s, L['mem'])
        c.headvals = L['vals']
        if li is not None:
            for h1 in li.hints(c): st2.assume(h1)
        for n, g in s.inv(c, lp):
            s.oblige(st2, 'loop %s invariant preserved: %s' % (lp_name(lp, s.con), n), g, 'inv-step')
        if li is not None:
            v = li.variant(s, st, L, newv, lp)
            if v is not None:
                s.oblige(st2, 'loop %s terminates' % lp_name(lp, s.con), v, 'variant')

    def lookup_var(s, st, names, header):
        """value of a source variable at a loop header"""
        for n in names:
            # phi at this header
            for i in s.phis(header):
                if re.fullmatch(r'%' + re.escape(n) + r'(\.addr|\.\d+|\.i+\d*)*', i.res):
                    return st.env[i.res]
            for (a, nm) in s.allocas.items():
                if re.fullmatch(re.escape(n) + r'(\.addr)?(\d+)?(\.i+\d*)*', nm):
                    return s.cell(st.mem, a, 64)
        # dominating definitions with that name (latest executed)
        for n in names:
            for k in reversed(list(st.env)):
                if re.fullmatch(r'%' + re.escape(n) + r'(\.addr|\.\d+|\.i+\d*)*', k):
                    return st.env[k]
        raise KeyError(names[0])

    allocas = {}

    # ----------------------------------------------------- instructions
    def step(s, st, i):
        op = i.op
        if op in ir.BIN:
            a = s.val(st, i.ty, i.a[0]); b = s.val(st, i.ty, i.a[1])
            st.env[i.res] = s.binop(op, a, b, ' exact ' in i.text)
        elif op in ir.CAST:
            a = s.val(st, i.a[0], i.a[1])
            st.env[i.res] = s.cast(op, i.a[0], a, i.ty)
        elif op == 'icmp':
            a = s.val(st, i.ty, i.a[1]); b = s.val(st, i.ty, i.a[2])
            st.env[i.res] = s.icmp(i.a[0], a, b)
        elif op == 'select':
            c = s.asbool(s.val(st, ir.IntT(1), i.a[0]))
            a = s.val(st, i.ty, i.a[1]); b = s.val(st, i.ty, i.a[2])
            cs = z3.simplify(c)
            if z3.is_true(cs): st.env[i.res] = a
            elif z3.is_false(cs): st.env[i.res] = b
            elif a.bo is not None or b.bo is not None:
                st.env[i.res] = s.boolV(z3.If(c, s.asbool(a), s.asbool(b)))
            else:
                ep = min([e for e in (a.ep, b.ep) if e is not None], default=None)
                z = simp(z3.If(c, a.z, b.z))
                if a.b is not None or b.b is not None:
                    ab = a.b if a.b is not None else a.z
                    ao = a.o if a.b is not None else bv(0)
                    bb = b.b if b.b is not None else b.z
                    bo = b.o if b.b is not None else bv(0)
                    st.env[i.res] = V(z, simp(z3.If(c, ab, bb)), simp(z3.If(c, ao, bo)), ep, a.kind or b.kind)
                else:
                    st.env[i.res] = V(z, ep=ep)
        elif op == 'alloca':
            n = 1
            if i.a[0] is not None:
                k = simp(s.val(st, i.a[0][0], i.a[0][1]).z)
                if not isnum(k):
                    # variable-length: a fresh non-collected object
                    z = s.fresh('vla'); st.env[i.res] = mobj(z)
                    st.assume(z3.And(z3.UGE(z, bv(HEAP_LO)), z3.ULT(z, bv(HEAP_HI)), z & 15 == 0))
                    cc = Ctx(s, s.con, s.args, s.mem0view, MemView(s, st.mem), st=st)
                    cc.nbytes = simp(s.val(st, i.a[0][0], i.a[0][1]).z*bv(s.m.size(i.ty)))
                    s.con.on_fresh(cc, z, 'vla')
                    return None
                n = k.as_long()
            key = ('alloca', i.res)
            a = s.newstack(s.m.size(i.ty)*n)
            s.allocas[a] = i.res[1:]
            st.env[i.res] = V(bv(a))
        elif op == 'load':
            p = s.val(st, ir.PTR, i.a[0])
            v = s.load(st, p, i.ty, i.a[1], i.text.strip())
            if v is None: return 'dead'
            t = s.m.resolve(i.ty)
            if isinstance(t, ir.IntT) and t.w < 8:
                v = V(z3.Extract(t.w - 1, 0, v.z))
            st.env[i.res] = v
        elif op == 'store':
            v = s.val(st, i.ty, i.a[0]); p = s.val(st, ir.PTR, i.a[1])
            if not s.store(st, p, v, i.ty, i.text.strip()): return 'dead'
        elif op == 'gep':
            base = s.val(st, ir.PTR, i.a[0])
            st.env[i.res] = s.gep(st, i.ty, base, i.a[1])
        elif op == 'br':
            return [(st, i.a[0])]
        elif op == 'condbr':
            c = z3.simplify(s.asbool(s.val(st, ir.IntT(1), i.a[0])))
            if z3.is_true(c): return [(st, i.a[1])]
            if z3.is_false(c): return [(st, i.a[2])]
            m = s.try_merge(st, c, i.a[1], i.a[2])
            if m is not None: return m
            out = []
            t = st.copy()
            if s.feasible(st, c):
                t.assume(c); out.append((t, i.a[1]))
            if s.feasible(st, z3.Not(c)):
                st.assume(z3.Not(c)); out.append((st, i.a[2]))
            return out
        elif op == 'switch':
            v = s.val(st, i.ty, i.a[0])
            out = []
            rest = []
            for k, l in i.a[2]:
                c = v.z == bv(k, v.z.size())
                rest.append(z3.Not(c))
                if s.feasible(st, c):
                    t = st.copy(); t.assume(c); out.append((t, l))
            c = z3.And(rest) if rest else z3.BoolVal(True)
            if s.feasible(st, c):
                st.assume(c); out.append((st, i.a[1]))
            return out
        elif op == 'ret':
            r = None
            if i.a[0] is not None:
                r = s.val(st, i.ty, i.a[0])
            s.do_return(st, r)
            return 'dead'
        elif op == 'unreachable':
            return 'dead'
        elif op == 'call':
            return s.call(st, i)
        elif op == 'extractvalue':
            v = i.a[0]
            x = st.env.get(v[1])
            if isinstance(x, tuple):
                st.env[i.res] = x[i.a[1][0]]
            else: raise Unsupported('extractvalue')
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)
        return None

    def preds(s, b):
        if getattr(s, '_predf', None) is not s.fn:
            s._predf = s.fn
            s._preds = {}
            for x in s.fn.order:
                for y in s.fn.blocks[x].succs():
                    s._preds.setdefault(y, set()).add(x)
        return s._preds.get(b, set())

    def try_merge(s, st, c, yes, no):
        """if-conversion of a conditional block of raw stores (the write barrier)"""
        cur = st.trace[-1]
        for side, join, cond in ((yes, no, c), (no, yes, z3.Not(c))):
            # `if (stop requested) safepoint();`: the state after a safe point
            # over-approximates the state without it, so only that path is followed
            blk = s.fn.blocks[side]
            if len(blk.ins) == 2 and blk.ins[0].op == 'call' and blk.ins[1].op == 'br' and blk.ins[1].a[0] == join \
               and not s.phis(join) and join not in s.headers and s.preds(side) == {cur} and 'volatile!' in str(c):
                con = s.contracts.get(blk.ins[0].a[0])
                if con is not None and con.may_gc and not con.params and not con.modifies and type(con).ensures is Contract.ensures:
                    st.assume(cond)
                    return [(st, side)]
        for side, join, cond in ((yes, no, c), (no, yes, z3.Not(c))):
            blk = s.fn.blocks[side]
            if side == join or side in s.headers or join in s.headers: continue
            if s.preds(side) != {cur}: continue
            if blk.ins[-1].op != 'br' or blk.ins[-1].a[0] != join: continue
            if any(x.op not in ('load', 'store', 'gep', 'br') and x.op not in ir.BIN and x.op not in ir.CAST for x in blk.ins): continue
            if not any(x.op == 'store' for x in blk.ins): continue
            t = st.copy()
            t.assume(cond)
            t.trace.append(side)
            ok = True
            saved = len(s.obls)
            for x in blk.ins[:-1]:
                if s.step(t, x) is not None: ok = False; break
            if ok and (t.mem.c.keys() - st.mem.c.keys()): 
                for k in t.mem.c.keys() - st.mem.c.keys():
                    if s.whichglobal(k[0])[0] is None: ok = False
            if ok and len(t.pend) != len(st.pend): ok = False
            if ok:
                for k, v in t.mem.c.items():
                    if k in st.mem.c and not z3.eq(simp(v.z), simp(st.mem.c[k].z)) : ok = False
                    elif k not in st.mem.c and not z3.eq(v.z, s.cell(st.mem.copy(), *k).z): ok = False
            if ok and s.phis(join): ok = False
            if not ok:
                del s.obls[saved:]
                continue
            # assumptions made inside the block stay conditional
            for f in t.pc[len(st.pc) + 1:]: st.assume(z3.Implies(cond, f))
            for n, a in t.mem.a.items():
                b = s.arr(st.mem, n)
                if z3.eq(a, b): continue
                st.mem.a[n] = merge_store(cond, a, b)
            return [(st, join)]
        return None

    def do_return(s, st, r):
        s.nret += 1
        con = s.con
        if r is not None:
            s.stale(st, r, 'returned')
        s.check_barriers(st, 'return')
        for cn, a in s.rootslots: s.stale(st, st.mem.c[(a, 64)], 'the variable behind %s' % cn)
        c = Ctx(s, con, s.args, s.mem0view, MemView(s, st.mem), ret=r, st=st)
        if s.mutator_stack(con):
            a = s.gaddr('@ggggc_pointerStack')
            o = s.cell(s.mem0, a, 64); n = s.cell(st.mem, a, 64)
            s.oblige(st, 'root registrations are balanced at return', o.z == n.z, 'rooting')
        try:
            ens = list(con.ensures(c))
        except KeyError as e:
            raise Break('contract refers to missing %s' % e)
        for n, g in ens:
            s.oblige(st, 'ensures ' + n, g, 'post')
        for n in ARR:
            if n not in con.modifies_all():
                a0 = s.arr(s.mem0, n); a1 = s.arr(st.mem, n)
                if not z3.eq(a0, a1):
                    s.oblige(st, 'frame: memory class %s unchanged' % n, a0 == a1, 'frame')
        for k, v in st.mem.c.items():
            n, off = s.whichglobal(k[0])
            if n is None:
                continue
            v0 = s.cell(s.mem0, *k)
            if not z3.eq(simp(v0.z), simp(v.z)) and not con.may_modify_global(n[1:], off):
                s.oblige(st, 'frame: global %s+%d unchanged' % (n[1:], off), v0.z == v.z, 'frame')
        s.retpcs.append(list(st.pc))

    def mutator_stack(s, con):
        return con.balanced and '@ggggc_pointerStack' in s.m.globals

    def call(s, st, i):
        callee, args = i.a
        if callee[0] == '%':
            fv = st.env[callee]
            vals = [(t, s.val(st, t, v)) for t, v in args if not isinstance(t, ir.OtherT)]
            return s.ret_multi(st, i, s.con.indirect(s, st, fv, vals, i))
        name = callee
        if name.startswith('@llvm.'):
            return s.intrinsic(st, i, name, args)
        vals = [(t, s.val(st, t, v)) for t, v in args if not isinstance(t, ir.OtherT)]
        if name in s.contracts:
            s.contracts_used.add(name)
            return s.ret_multi(st, i, s.apply(st, s.contracts[name], vals, i))
        h = s.con.external(name) or EXTERNALS.get(name)
        if h is not None:
            s.externals_used.add(name)
            return s.ret_multi(st, i, h(s, st, [v for _, v in vals], i))
        raise Break('call to %s, which has neither a body here nor a contract' % name)

    def ret_multi(s, st, i, r):
        """r: None (void, continue), V, 'dead', or list of (state, V)"""
        if isinstance(r, str) and r == 'dead': return 'dead'
        if isinstance(r, list):
            out = []
            for t, v in r:
                if i.res: t.env[i.res] = v
                out.append((t, None, 'resume'))
            return out
        if i.res:
            if r is None:
                t = s.m.resolve(i.ty)
                r = V(s.fresh('ret', 64 if isinstance(t, ir.PtrT) else t.w))
            st.env[i.res] = r
        return None

    def apply(s, st, con, vals, i):
        """modular call: assert requires, havoc, assume ensures"""
        names = [n for n, _ in con.params]
        if len(vals) != len(names):
            raise Break('call to %s with %d arguments' % (con.name, len(vals)))
        args = {n: v for n, (_, v) in zip(names, vals)}
        for n, kind in con.params:
            if kind == 'gc' or kind == 'rootslot' and False:
                v = args[n]
                s.stale(st, v, 'argument %s of %s' % (n, con.name))
                if v.b is None:
                    args[n] = gcref(v.z, st.epoch) if True else v
        old = MemView(s, st.mem.copy())
        c = Ctx(s, con, args, old, old, st=st, ghosts=st.ghost)
        c.call = True
        for n, r in con.requires(c):
            s.oblige(st, 'precondition of %s: %s' % (con.name, n), r, 'pre')
        extra = []
        if con.may_gc:
            for n, kind in con.params:
                if kind == 'rootslot':
                    a = simp(args[n].z)
                    if isnum(a): extra.append(a.as_long())
            s.safepoint(st, 'call of ' + con.name, extra)
        for n in con.modifies_all():
            st.mem.a[n] = s.fresharr(n)
        for g, off in con.modifies_globals_list():
            a = s.gaddr('@' + g) + off
            st.mem.c[(a, 64)] = s.con_cell(con, g, off)
        ret = None
        t = s.m.resolve(i.ty) if not isinstance(i.ty, ir.VoidT) else None
        if t is not None:
            w = 64 if isinstance(t, ir.PtrT) else t.w
            z = s.fresh('ret_' + con.name, w)
            ret = gcref(z, st.epoch) if con.retkind == 'gc' else mobj(z) if con.retkind == 'mobj' else V(z)
        new = MemView(s, st.mem)
        c2 = Ctx(s, con, args, old, new, ret=ret, st=st, ghosts=st.ghost)
        c2.call = True
        con.apply_effects(c2, st)
        for n, e in con.ensures(c2):
            st.assume(e)
        if con.noreturn: return 'dead'
        return ret

    def con_cell(s, con, g, off):
        z = s.fresh(g)
        k = con.cellkind('@' + g, off)
        return gcref(z, 0) if k == 'gc' else V(z)

    def intrinsic(s, st, i, name, args):
        if re.match(r'@llvm\.(dbg|lifetime|assume|experimental|donothing|prefetch|stacksave|stackrestore|invariant)', name):
            if i.res: st.env[i.res] = V(bv(0))
            return None
        v = [s.val(st, t, a) for t, a in args if not isinstance(t, ir.OtherT)]
        if name.startswith('@llvm.threadlocal.address'):
            st.env[i.res] = v[0]
            return None
        if name.startswith('@llvm.memset'):
            return s.ret_multi(st, i, do_memset(s, st, v[0], v[1], v[2], i))
        if name.startswith('@llvm.memcpy') or name.startswith('@llvm.memmove'):
            return s.ret_multi(st, i, do_memcpy(s, st, v[0], v[1], v[2], i))
        m = re.match(r'@llvm\.(umin|umax|smin|smax|abs|usub\.sat|uadd\.sat)\.', name)
        if m:
            x, y = v[0].z, v[1].z
            k = m.group(1)
            z = {'umin': lambda: z3.If(z3.ULT(x, y), x, y), 'umax': lambda: z3.If(z3.ULT(x, y), y, x),
                 'smin': lambda: z3.If(x < y, x, y), 'smax': lambda: z3.If(x < y, y, x),
                 'abs': lambda: z3.If(x < 0, -x, x),
                 'usub.sat': lambda: z3.If(z3.ULT(x, y), bv(0, x.size()), x - y),
                 'uadd.sat': lambda: z3.If(z3.ULT(x + y, x), bv(-1, x.size()), x + y)}[k]()
            st.env[i.res] = V(simp(z))
            return None
        m = re.match(r'@llvm\.(uadd|umul|usub)\.with\.overflow\.i(\d+)', name)
        if m:
            x, y = v[0].z, v[1].z
            w = int(m.group(2))
            if m.group(1) == 'uadd': r, o = x + y, z3.ULT(x + y, x)
            elif m.group(1) == 'usub': r, o = x - y, z3.ULT(x, y)
            else:
                p = z3.ZeroExt(w, x)*z3.ZeroExt(w, y)
                r, o = x*y, z3.Extract(2*w - 1, w, p) != 0
            st.env[i.res] = (V(simp(r)), s.boolV(o))
            return None
        raise Unsupported('intrinsic ' + name)

def lp_name(lp, con):
    li = con.loopmap.get(lp.idx)
    return (li.name if li is not None and li.name else '#%d' % lp.idx)

def merge_store(cond, a, b):
    chain = []
    x = a
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE and not z3.eq(x, b):
        chain.append((x.arg(1), x.arg(2)))
        x = x.arg(0)
    if not z3.eq(x, b): return z3.If(cond, a, b)
    r = b
    for k, v in reversed(chain):
        r = z3.Store(r, k, z3.If(cond, v, z3.Select(b, k)) if len(chain) == 1 else z3.If(cond, v, z3.Select(r, k)))
    return r

_BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ}
def patok(p):
    st, seen = [p], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return False
        if z3.is_app(x) and x.decl().kind() in _BADPAT: return False
        st.extend(x.children())
    return True
def forall(vs, f, *pats):
    """ForAll with those of the patterns that are patterns"""
    ps = []
    for p in pats:
        if isinstance(p, (list, tuple)):
            if all(patok(x) for x in p): ps.append(z3.MultiPattern(*p))
        elif patok(p): ps.append(p)
    return z3.ForAll(vs, f, patterns=ps)

def labelled(label, vs, f, *pats):
    """forall with a label, see Contract.unneeded"""
    q = forall(vs, f, *pats)
    return z3.ForAll(vs, f, patterns=[q.pattern(i) for i in range(q.num_patterns())] and [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats if isinstance(p, (list, tuple)) or patok(p)], qid=label)

def without(fs, labels):
    """fs without the conjuncts that are quantified formulas with one of the labels"""
    if not labels: return fs
    out = []; st = list(reversed(fs))
    while st:
        f = st.pop()
        if z3.is_and(f) and has_quant(f): st.extend(reversed(f.children()))
        elif z3.is_quantifier(f) and f.qid() in labels: continue
        else: out.append(f)
    return out

def FA(vs, f, patterns=()): return forall(vs, f, *patterns)

_qc = {}
def has_quant(e):
    k = e.get_id()
    if k in _qc and z3.eq(_qc[k][0], e): return _qc[k][1]
    seen = set()
    st = [e]
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _qc[k] = (e, r)
    return r

# --------------------------------------------------------- memory blocks
def do_memset(ex, st, p, v, n, i):
    """fill n bytes at p with byte v, on every access width"""
    ex.stale(st, p, 'memset')
    nz = simp(n.z)
    byte = simp(v.z if v.z.size() == 8 else z3.Extract(7, 0, v.z))
    pz = simp(p.z)
    if isnum(pz):
        a = pz.as_long()
        if not isnum(nz): raise Unsupported('memset of a variable part of a local')
        for k in [k for k in st.mem.c if a <= k[0] < a + nz.as_long()]:
            del st.mem.c[k]
        if num(byte) != 0: raise Unsupported('memset')
        for off in range(0, nz.as_long(), 8):
            st.mem.c[(a + off, 64)] = V(bv(0))
        return p
    ws = (8, 16, 64)
    pre = 'o' if p.b is not None else 'r'
    if pre == 'r':
        # the block must lie inside the heap window (and the contract's region)
        lo = p.z
        ex.oblige(st, 'memset block inside the heap', z3.Or(nz == 0, z3.And(z3.UGE(lo, bv(HEAP_LO)), z3.ULE(nz, bv(HEAP_HI)), z3.ULE(lo + nz, bv(HEAP_HI)))), 'safety')
        g = ex.con.valid_range(Ctx(ex, ex.con, ex.args, ex.mem0view, MemView(ex, st.mem), st=st), p.z, nz, 'memset')
        if g is not None: ex.oblige(st, 'memset block in a permitted region', g, 'safety')
    else:
        ex.oblige(st, 'no memset through a null pointer', p.b != 0, 'safety')
        g = ex.con.valid_objrange(Ctx(ex, ex.con, ex.args, ex.mem0view, MemView(ex, st.mem), st=st), p, nz, 'memset')
        if g is not None: ex.oblige(st, 'memset block inside a live object', g, 'safety')
    for w in ws:
        nm = '%s%d' % (pre, w)
        a0 = ex.arr(st.mem, nm)
        a1 = ex.fresharr(nm)
        val = byte
        k = 8
        while k < w:
            val = z3.Concat(val, val); k *= 2
        val = simp(val)
        if pre == 'r':
            x = z3.BitVec('ms', 64)
            inr = z3.ULT(x - p.z, nz)
            st.assume(z3.ForAll([x], z3.Select(a1, x) == z3.If(inr, val, z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))
        else:
            x = z3.BitVec('ms', 96)
            off = z3.Extract(31, 0, x); base = z3.Extract(95, 32, x)
            o32 = z3.Extract(31, 0, p.o)
            n32 = z3.Extract(31, 0, nz)
            inr = z3.And(base == p.b, z3.ULT(off - o32, n32))
            st.assume(z3.ForAll([x], z3.Select(a1, x) == z3.If(inr, val, z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))
        st.mem.a[nm] = a1
    return p

def do_memcpy(ex, st, d, sr, n, i):
    ex.stale(st, d, 'memcpy'); ex.stale(st, sr, 'memcpy')
    nz = simp(n.z)
    dz, sz = simp(d.z), simp(sr.z)
    if isnum(dz) and isnum(nz):
        a = dz.as_long()
        for off in range(0, nz.as_long(), 8):
            v = ex.load(st, ex.padd(sr, bv(off)), ir.PTR)
            if v is None: return 'dead'
            ex.store(st, V(bv(a + off)), v, ir.IntT(64))
        return d
    if isnum(sz) and isnum(nz) and nz.as_long() <= 256:
        for off in range(0, nz.as_long(), 8):
            v = ex.load(st, V(bv(sz.as_long() + off)), ir.IntT(64))
            if v is None: return 'dead'
            ex.store(st, ex.padd(d, bv(off)), v, ir.IntT(64))
        return d
    if isnum(dz): raise Unsupported('memcpy of variable size to a local')
    kd = 'o' if d.b is not None else 'r'
    ks = 'o' if sr.b is not None else 'r'
    c = Ctx(ex, ex.con, ex.args, ex.mem0view, MemView(ex, st.mem), st=st)
    for k, p, what in ((kd, d, 'memcpy destination'), (ks, sr, 'memcpy source')):
        if isnum(simp(p.z)): continue
        g = ex.con.valid_range(c, p.z, nz, what) if k == 'r' else ex.con.valid_objrange(c, p, nz, what)
        if g is not None: ex.oblige(st, what + ' in a permitted region', g, 'safety')
    if kd == 'r' and ks == 'r':
        ex.oblige(st, 'memcpy blocks do not overlap', z3.Or(d.z == sr.z, nz == 0, z3.UGE(d.z - sr.z, nz), False) if False else z3.Or(nz == 0, z3.And(z3.UGE(d.z - sr.z, nz), z3.UGE(sr.z - d.z, nz))), 'safety')
    if isnum(sz):
        # source is a local array with few known words (e.g. one word)
        cells = {k[0] - sz.as_long(): v for k, v in st.mem.c.items() if k[1] == 64 and 0 <= k[0] - sz.as_long() < 4096}
        ext = [hi - sz.as_long() for lo, hi in ex.stackrange if lo <= sz.as_long() < hi]
        if ext:
            ex.oblige(st, 'memcpy source inside the local array', z3.ULE(nz, bv(ext[0])), 'safety')
    for w in (8, 16, 64):
        nm = '%s%d' % (kd, w); ns = '%s%d' % (ks, w)
        a0 = ex.arr(st.mem, nm); a1 = ex.fresharr(nm)
        if kd == 'r':
            x = z3.BitVec('mc', 64)
            delta = x - d.z
            inr = z3.ULT(delta, nz)
        else:
            x = z3.BitVec('mc', 96)
            delta = z3.ZeroExt(32, z3.Extract(31, 0, x) - z3.Extract(31, 0, d.o))
            inr = z3.And(z3.Extract(95, 32, x) == d.b, z3.ULT(delta, nz))
        if isnum(sz):
            if w != 64:
                src = ex.fresh('unk', w)
            else:
                src = ex.fresh('unk', 64)
                for o in sorted(cells):
                    src = z3.If(delta == bv(o), cells[o].z, src)
        elif ks == 'r':
            src = z3.Select(ex.arr(st.mem, ns), sr.z + delta)
        else:
            src = z3.Select(ex.arr(st.mem, ns), okey(sr.b, sr.o + delta))
        st.assume(z3.ForAll([x], z3.Select(a1, x) == z3.If(inr, src, z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))
        st.mem.a[nm] = a1
    return d

# ------------------------------------------------------------- externals
def ext_nop(ret=0):
    def h(ex, st, args, i):
        t = ex.m.resolve(i.ty) if not isinstance(i.ty, ir.VoidT) else None
        if t is None: return None
        return V(bv(ret, 64 if isinstance(t, ir.PtrT) else t.w))
    return h
def ext_any(ex, st, args, i):
    return None
def ext_dead(ex, st, args, i):
    return 'dead'
def ext_errno(ex, st, args, i):
    return V(bv(ex.gaddr('@errno!cell')))

EXTERNALS = {
    '@abort': ext_dead, '@exit': ext_dead, '@perror': ext_any, '@fprintf': ext_any, '@fwrite': ext_any, '@fputs': ext_any, '@fputc': ext_any, '@printf': ext_any,
    '@pthread_mutex_lock': ext_nop(0), '@pthread_mutex_unlock': ext_nop(0),
    '@pthread_mutex_trylock': ext_any,
    '@pthread_barrier_wait': ext_any, '@pthread_barrier_init': ext_nop(0), '@pthread_barrier_destroy': ext_nop(0),
    '@__errno_location': ext_errno,
}

class LoopInv:
    ghosts = ()
    name = None
    cut = False
    def __init__(s, inv=None, name=None, variant=None, kinds=None, hints=None):
        if inv: s._inv = inv
        s.name = name
        s._variant = variant
        s._kinds = kinds or {}
        s._hints = hints
    def inv(s, c):
        return s._inv(c) if hasattr(s, '_inv') else []
    def keep(s, k, v): return False
    def hints(s, c):
        return s._hints(c) if s._hints else []
    def phikind(s, base, kind, ex, v0):
        b = re.sub(r'(\.\d+)?(\.i\d*)*$', '', base)
        return s._kinds.get(b, kind)
    def variant(s, ex, st, L, newv, lp):
        if not s._variant: return None
        c0 = ex.lctx(st, lp, L['entry'], L['vals'])
        c0.new = MemView(ex, L['mem'])
        # evaluate at head
        sth = st.copy(); sth.env = dict(L['env']); sth.mem = L['mem']; sth.ghost = L['ghost']
        c0.st = sth
        c0.gh = L['ghost']
        st1 = st.copy(); st1.env.update(newv)
        c1 = ex.lctx(st1, lp, L['entry'], newv)
        return s._variant(c0, c1)

class Contract:
    """base class; see contracts/*.py"""
    name = ''
    params = ()
    may_gc = False
    modifies = ()
    globals_mod = ()
    retkind = None
    noreturn = False
    def unneeded(s, name): return ()   # labels of assumptions to try without
    regions = {}        # kind of object -> its memory
    objglobals = {}     # global variable -> its kind of object (list it in rawglobals too)
    merge = False       # join paths where they meet
    balanced = False
    barriers = False
    loops = ()
    loopmap = {}
    def setup(s, c, st): pass
    def axioms(s, c): return []
    def requires(s, c): return []
    def ensures(s, c): return []
    def cellkind(s, n, off): return None
    def loadkind(s, p): return 'gc' if p.kind == 'gc' else None
    def valid(s, c, z, size, what): return None
    def valid_obj(s, c, p, size, store): return None
    def valid_range(s, c, z, n, what): return None
    def valid_objrange(s, c, p, n, what): return None
    def root_global(s, ex, addr): return False
    def needs_barrier(s, p): return True
    def on_fresh(s, c, z, what): pass
    def on_store(s, ex, st, p, v): pass
    def at_safepoint(s, ex, st, roots): pass
    def modifies_all(s):
        m = list(s.modifies)
        if s.may_gc:
            for n in ('r8', 'r16'):
                if n not in m: m.append(n)
        return m
    def may_modify_global(s, n, off): return any(g == n for g, _ in s.modifies_globals_list())
    def modifies_globals_list(s):
        return [(g, 0) if isinstance(g, str) else g for g in s.globals_mod]
    def apply_effects(s, c, st): pass
    def external(s, name): return None
    def indirect(s, ex, st, fv, vals, i):
        raise Break('indirect call')
    def match_loops(s, ex, f, loops):
        ls = s.loops
        if isinstance(ls, dict): return ls
        if len(ls) != len(loops):
            raise Break('%s has %d loops, the contract describes %d' % (f.name, len(loops), len(ls)))
        return {i: l for i, l in enumerate(ls)}
