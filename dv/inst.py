"""Instantiation: from quantified assumptions to a quantifier-free query.

Every universally quantified assumption is replaced by instances of it at
ground terms of the query, found by matching its patterns (modulo selecting
through stores and if-then-elses of arrays).  Instances follow from the
assumption, so a contradiction among them is one among the assumptions: the
result can be used to prove an obligation, never to refute it."""
import z3

SELECT, STORE, ITE = z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_ITE

def kind(e): return e.decl().kind() if z3.is_app(e) else None

def split(fs):
    out = []
    st = list(reversed(fs))
    while st:
        f = st.pop()
        if z3.is_and(f): st.extend(reversed(f.children()))
        else: out.append(f)
    return out

_hq = {}
def quant(e):
    from .sym import has_quant
    return has_quant(e)

def pull(f, pos=True):
    """universal quantifiers of f in positive places: [(quantifier, context)]
    where context(body) is f with it replaced; None if f has others"""
    if not quant(f): return []
    if z3.is_quantifier(f):
        return [(f, lambda b: b)] if f.is_forall() and pos else None
    if z3.is_or(f) and pos or z3.is_and(f) and pos:
        mk = z3.Or if z3.is_or(f) else z3.And
        ch = f.children()
        qs = [i for i, c in enumerate(ch) if quant(c)]
        if z3.is_or(f) and len(qs) > 1: return None
        out = []
        for i in qs:
            r = pull(ch[i])
            if r is None: return None
            for q, k in r:
                if z3.is_or(f): out.append((q, lambda b, k=k, i=i, ch=ch: z3.Or(ch[:i] + [k(b)] + ch[i+1:])))
                else: out.append((q, k))
        return out
    if z3.is_implies(f) and pos and not quant(f.arg(0)):
        r = pull(f.arg(1))
        if r is None: return None
        return [(q, lambda b, k=k, a=f.arg(0): z3.Implies(a, k(b))) for q, k in r]
    return None

class Pat:
    def __init__(s, q, ctx):
        s.q, s.ctx = q, ctx
        s.n = q.num_vars()
        s.pats = []
        for i in range(q.num_patterns()):
            p = q.pattern(i)
            s.pats.append([p.arg(j) for j in range(p.num_args())])
        s.done = set()

def isground(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_var(x): return False
        st.extend(x.children())
    return True

def match(p, t, sub):
    """syntactic matching of pattern p (with bound variables) on a ground term"""
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in sub: return sub if sub[i].eq(t) else None
        if p.sort() != t.sort(): return None
        sub = dict(sub); sub[i] = t
        return sub
    if p.num_args() == 0: return sub if p.eq(t) else None
    if not z3.is_app(t) or t.num_args() != p.num_args() or not t.decl().eq(p.decl()): return None
    for a, b in zip(p.children(), t.children()):
        sub = match(a, b, sub)
        if sub is None: return None
    return sub

def bases(a, seen=None):
    """arrays below stores and if-then-elses, a included"""
    out = []; st = [a]; ids = set()
    while st:
        x = st.pop()
        if x.get_id() in ids: continue
        ids.add(x.get_id())
        out.append(x)
        k = kind(x)
        if k == STORE: st.append(x.arg(0))
        elif k == ITE: st += [x.arg(1), x.arg(2)]
    return out

def instantiate(fs, gens=1, rounds=10, limit=4000):
    """quantifier-free formulas that follow from fs"""
    ground = []; pats = []
    for f in split(fs):
        if not quant(f): ground.append(f); continue
        r = pull(f)
        if r is None: continue
        for q, k in r:
            p = Pat(q, k)
            if p.pats: pats.append(p)
    seen = set()
    sels = {}           # base array id -> [(index)]
    apps = {}           # decl name/arity -> [terms], for other patterns
    keep = []
    heads = set()
    for p in pats:
        for mp in p.pats:
            for t in mp: heads.add(t.decl().name())
    gen = {}            # generation of a term used as an index
    def idx(b, t, g):
        d = sels.setdefault(b.get_id(), {})
        d.setdefault(t.get_id(), t)
        gen.setdefault(t.get_id(), g)
    def harvest(f, g=0):
        st = [f]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i); keep.append(x)
            if z3.is_quantifier(x) or z3.is_var(x): continue
            k = kind(x)
            if k == SELECT and x.num_args() == 2:
                for b in bases(x.arg(0)):
                    idx(b, x.arg(1), g)
            elif k == STORE:
                # the cell written is also worth knowing about
                for b in bases(x):
                    idx(b, x.arg(1), g)
            elif x.num_args() and x.decl().name() in heads:
                apps.setdefault(x.decl().name(), {})[i] = x
                gen.setdefault(i, g)
            st.extend(x.children())
    for f in ground: harvest(f)
    out = list(ground)
    total = 0
    for r in range(rounds):
        new = []
        for p in pats:
            for mp in p.pats:
                subs = [{}]
                for t in mp:
                    nxt = []
                    if kind(t) == SELECT and t.num_args() == 2 and isground(t.arg(0)):
                        cands = list(sels.get(t.arg(0).get_id(), {}).values())
                        for sub in subs:
                            for c in cands:
                                m = match(t.arg(1), c, sub)
                                if m is not None: nxt.append(m)
                    else:
                        for sub in subs:
                            for c in list(apps.get(t.decl().name(), {}).values()):
                                m = match(t, c, sub)
                                if m is not None: nxt.append(m)
                    subs = nxt
                for sub in subs:
                    if len(sub) != p.n: continue
                    args = [sub[i] for i in range(p.n)]
                    key = tuple(a.get_id() for a in args)
                    if key in p.done: continue
                    g = max([gen.get(k, 0) for k in key] or [0])
                    if g > gens: continue
                    p.done.add(key); keep.extend(args)
                    new.append((g + 1, p.ctx(z3.substitute_vars(p.q.body(), *args))))
                    total += 1
                    if total > limit: break
        if not new or total > limit: break
        add = []
        for g, f in [(g, x) for g, f in new for x in split([f])]:
            if quant(f):
                for q, k in pull(f) or []:
                    pp = Pat(q, k)
                    if pp.pats: pats.append(pp); keep.append(f); [heads.add(t.decl().name()) for mp in pp.pats for t in mp]
                continue
            add.append((g, f))
        for g, f in add: harvest(f, g)
        out += [f for g, f in add]
    return out
