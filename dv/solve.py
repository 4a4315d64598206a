"""Discharging obligations with a portfolio of solvers (no caching of verdicts)."""
import os, subprocess, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
import z3
from .sym import has_quant, without
from . import inst

Z3NEW = '/usr/local/bin/z3-new'
Z3OLD = '/usr/bin/z3'
CVC5 = '/usr/bin/cvc5'
_z3lock = threading.Lock()

class Res:
    def __init__(s, o):
        s.name, s.kind, s.expect, s.trace = o.name, o.kind, o.expect, o.trace
        s.status = None     # 'proved' | 'refuted' | 'unknown' | 'vacuous' | 'cover'
        s.solver = None
        s.time = 0.0
        s.detail = ''
        s.soft = False

def to_smt(fs):
    sol = z3.Solver()
    for f in fs: sol.add(f)
    return sol.to_smt2()

def run1(cmd, path, timeout):
    t = time.time()
    try:
        r = subprocess.run(cmd + [path], capture_output=True, text=True, timeout=timeout + 2)
        out = r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', '', time.time() - t
    first = out.strip().split('\n')[0].strip() if out.strip() else ''
    if first in ('sat', 'unsat', 'unknown'):
        return first, out, time.time() - t
    if 'timeout' in out: return 'timeout', out, time.time() - t
    return 'error', out[:400], time.time() - t

def fast(quant, tmo):
    t = int(tmo)
    if quant:
        return [('z3-5.3', [Z3NEW, '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false'])]
    return [('z3-5.3', [Z3NEW, '-T:%d' % t])]

def racers(quant, tmo):
    t = int(tmo)
    if quant:
        return [
            ('z3-5.3', [Z3NEW, '-T:%d' % t]),
            ('z3-5.3/r0', [Z3NEW, '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false', 'smt.relevancy=0']),
            ('z3-5.3/q3', [Z3NEW, '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false', 'smt.qi.eager_threshold=3']),
            ('cvc5', [CVC5, '--tlimit=%d' % (t*1000)]),
            ('z3-4.8', [Z3OLD, '-T:%d' % t, 'smt.mbqi=false', 'auto_config=false']),
        ]
    return [
        ('z3-5.3', [Z3NEW, '-T:%d' % t]),
        ('cvc5', [CVC5, '--tlimit=%d' % (t*1000)]),
        ('z3-4.8', [Z3OLD, '-T:%d' % t]),
    ]

def classify(out):
    first = out.strip().split('\n')[0].strip() if out.strip() else ''
    return first if first in ('sat', 'unsat', 'unknown') else 'timeout' if 'timeout' in out else 'error'

def race(cfgs, path, tmo):
    """run all configurations at once; the first definite answer wins"""
    ps = [(n, subprocess.Popen(c + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cfgs]
    t0 = time.time()
    got = {}
    try:
        while len(got) < len(ps) and time.time() - t0 < tmo + 3:
            for n, p in ps:
                if n not in got and p.poll() is not None:
                    r = classify(p.stdout.read())
                    got[n] = (r, time.time() - t0)
                    if r in ('sat', 'unsat'): return n, r, got
            time.sleep(0.02)
        return None, 'unknown', got
    finally:
        for n, p in ps:
            if p.poll() is None: p.kill()
            p.wait()
            p.stdout.close()

def settle(res, r, name):
    if r == 'unsat':
        res.status = 'proved' if res.expect == 'valid' else 'vacuous'
    elif r == 'sat':
        res.status = 'refuted' if res.expect == 'valid' else 'cover'
    res.solver = name

def stage1(res, path, quant, tmo):
    t0 = time.time()
    for name, cmd in fast(quant, tmo):
        r, out, dt = run1(cmd, path, tmo)
        if r in ('unsat', 'sat'):
            settle(res, r, name)
            break
        if res.expect == 'sat':
            # a vacuity guard: no contradiction found
            res.status = 'cover'; res.solver = name + (' (saturated)' if r == 'unknown' else ' (no contradiction within the limit)')
            break
        if r == 'unknown' and dt < tmo*0.9: res.sat1 = True
    res.time += time.time() - t0

def inst_race(path, g, tmo):
    cfgs = [('z3-5.3/inst%d' % g, [Z3NEW, '-T:%d' % int(tmo)]), ('cvc5/inst%d' % g, [CVC5, '--tlimit=%d' % int(tmo*1000)])]
    ps = [(n, subprocess.Popen(c + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for n, c in cfgs]
    t0 = time.time()
    got = {}
    try:
        while len(got) < len(ps) and time.time() - t0 < tmo + 3:
            for n, p in ps:
                if n not in got and p.poll() is not None:
                    got[n] = classify(p.stdout.read())
                    if got[n] in ('unsat', 'sat'): return got[n], n
            time.sleep(0.01)
        return 'unknown', None
    finally:
        for n, p in ps:
            if p.poll() is None: p.kill()
            p.wait()
            p.stdout.close()

def inst_one(fs, tmpdir, tmo, late):
    """(status, solver, time): quantifier-free instances of the assumptions; can
    only prove.  'inst' when the largest set of instances is satisfiable"""
    t0 = time.time()
    r = None
    prev = -1
    for g, t in ((0, 3), (1, tmo), (2, 2*tmo)):
        if late(): break
        gs = inst.instantiate(fs, gens=g)
        if len(gs) == prev:
            if r == 'sat': continue     # nothing new
        prev = len(gs)
        fd, p = tempfile.mkstemp('.smt2', dir=tmpdir)
        try:
            os.write(fd, to_smt(gs).encode())
            os.close(fd)
            r, n = inst_race(p, g, t)
        finally: os.unlink(p)
        if r == 'unsat': return 'unsat', n, time.time() - t0
    return ('inst' if r == 'sat' else 'unknown'), None, time.time() - t0

def inst_stage(qs, tmpdir, tmo, jobs, late):
    """stage 1.5, in forked workers: matching is Python work"""
    if not qs: return
    rq, wq = os.pipe()
    pids = []
    outs = []
    jobs = max(1, min(jobs, len(qs)))
    for k in range(jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd); os.close(wq)
                with os.fdopen(wr, 'w') as out:
                    while True:
                        b = os.read(rq, 4)
                        if len(b) < 4: break
                        i = int.from_bytes(b, 'little')
                        try: st, n, t = inst_one(qs[i].slim or qs[i].fs, tmpdir, tmo, late)
                        except Exception: st, n, t = 'unknown', None, 0.0
                        out.write('%d %s %s %f\n' % (i, st, n, t)); out.flush()
            finally:
                os._exit(0)
        os.close(wr)
        pids.append(pid); outs.append(rd)
    os.close(rq)
    def feed():
        try:
            for i in range(len(qs)): os.write(wq, i.to_bytes(4, 'little'))
        except OSError: pass
        os.close(wq)
    th = threading.Thread(target=feed); th.start()
    def take(rd):
        with os.fdopen(rd) as f:
            for l in f:
                i, st, n, t = l.split()
                q = qs[int(i)]
                q.time += float(t)
                if st == 'unsat': settle(q, 'unsat', n)
                elif st == 'inst' and q.slim is None: q.inst = True
    ts = [threading.Thread(target=take, args=(rd,)) for rd in outs]
    for t in ts: t.start()
    for t in ts: t.join()
    th.join()
    for p in pids: os.waitpid(p, 0)

def stage2(res, path, quant, tmo):
    t0 = time.time()
    n, r, got = race(racers(quant, tmo), path, tmo)
    res.time += time.time() - t0
    if n: return settle(res, r, n)
    # refuted without a model: every instantiation-based configuration ran out of
    # instances (none of them merely ran out of time), so no load or luck is involved
    sat = [k for k, (v, dt) in got.items() if v == 'unknown' and dt < tmo*0.9]
    need = ('z3-5.3/r0', 'z3-5.3/q3', 'z3-4.8')
    if quant and getattr(res, 'sat1', False) and (res.inst or res.expect != 'valid') and all(k in sat for k in need):
        res.status = 'refuted'
        res.solver = ', '.join(sat)
        res.detail = 'quantifier instantiation saturated without a proof'
        res.soft = True
    else:
        res.status = 'unknown'
        res.solver = 'portfolio'
        res.detail = 'time limit'

_sk = [0]
def pieces(g, hyps=()):
    """split a goal into conjuncts; top-level universal quantifiers become
    fresh constants.  Returns [(hypotheses, goal)]"""
    if z3.is_and(g):
        return [x for c in g.children() for x in pieces(c, hyps)]
    if z3.is_implies(g):
        return pieces(g.arg(1), hyps + (g.arg(0),))
    if z3.is_quantifier(g) and g.is_forall():
        vs = []
        for i in range(g.num_vars()):
            _sk[0] += 1
            vs.append(z3.Const('sk_%s!%d' % (g.var_name(i), _sk[0]), g.var_sort(i)))
        return pieces(z3.substitute_vars(g.body(), *reversed(vs)), hyps)
    if z3.is_true(g): return []
    return [(hyps, g)]

class Q:
    """one solver query"""
    __slots__ = ('fs', 'inst', 'expect', 'status', 'solver', 'time', 'detail', 'sat1', 'soft', 'path', 'quant', 'slim', 'slimpath')
    def __init__(s, expect):
        s.expect = expect; s.status = s.solver = None; s.time = 0.0; s.detail = ''; s.sat1 = s.soft = s.inst = False; s.slim = s.slimpath = None

RANK = {'proved': 0, 'unknown': 1, 'refuted': 2}

def discharge(obls, tmpdir, tmos=(5, 30), jobs=8, stop=None, deadline=None):
    """decide every obligation.  stop: at most this many queries reach the
    portfolio race; deadline: absolute time after which only the first stage runs"""
    results = []
    qs = {}
    keep = []           # keeps the terms alive: AST ids are the keys
    todo = []
    for o in obls:
        r = Res(o)
        r.qs = []
        results.append(r)
        if o.expect == 'valid':
            g = z3.simplify(o.goal)
            if z3.is_true(g):
                r.status = 'proved'; r.solver = 'simplifier'
                continue
            sets = []
            for h, gg in pieces(o.goal):
                if z3.is_true(z3.simplify(gg)): continue
                sets.append(list(o.pc) + list(h) + [z3.Not(gg)])
        else:
            sets = [list(o.pc)]
        for fs in sets:
            keep.append(fs)
            key = (o.expect, tuple(sorted(set(f.get_id() for f in fs))))
            q = qs.get(key)
            if q is None:
                q = qs[key] = Q(o.expect)
                q.quant = any(has_quant(f) for f in fs)
                q.fs = fs
                fd, q.path = tempfile.mkstemp('.smt2', dir=tmpdir)
                os.write(fd, ('(set-logic ALL)\n' + to_smt(fs)).encode())
                os.close(fd)
                if o.drop:
                    q.slim = without(fs, o.drop)
                    fd, q.slimpath = tempfile.mkstemp('.smt2', dir=tmpdir)
                    os.write(fd, ('(set-logic ALL)\n' + to_smt(q.slim)).encode())
                    os.close(fd)
                todo.append(q)
            r.qs.append(q)
    late = lambda: deadline is not None and time.time() > deadline
    try:
        def s1(q):
            if late(): return
            if q.slimpath:
                r, out, dt = run1(fast(q.quant, tmos[0])[0][1], q.slimpath, tmos[0])
                q.time += dt
                if r == 'unsat': return settle(q, 'unsat', 'z3-5.3')
            stage1(q, q.path, q.quant, tmos[0])
        with ThreadPoolExecutor(jobs) as ex: list(ex.map(s1, todo))
        left = [q for q in todo if q.status is None]
        inst_stage([q for q in left if q.quant and q.expect == 'valid'], tmpdir, tmos[0], jobs, late)
        left = [q for q in left if q.status is None]
        slim = [q for q in left if q.slim is not None]
        for q in slim: q.slim = None
        inst_stage([q for q in slim if q.quant and q.expect == 'valid'], tmpdir, tmos[0], jobs, late)
        left = [q for q in left if q.status is None]
        left.sort(key=lambda q: q.sat1)
        n = [0]
        def s2(q):
            n[0] += 1
            if late() or stop is not None and n[0] > stop:
                q.status = 'unknown'
                q.detail = 'first stage only'
                return
            if q.slimpath:
                t0 = time.time()
                n1, r, got = race(racers(q.quant, tmos[1]), q.slimpath, tmos[1])
                q.time += time.time() - t0
                if r == 'unsat': return settle(q, r, n1)
            stage2(q, q.path, q.quant, tmos[1])
        with ThreadPoolExecutor(max(1, jobs//4)) as ex: list(ex.map(s2, left))
    finally:
        for q in todo:
            if os.environ.get('DV_KEEP') and q.status not in ('proved', 'cover'): q.detail += ' ' + q.path
            else: os.unlink(q.path)
            if q.slimpath: os.unlink(q.slimpath)
    for r in results:
        if r.status == 'proved': continue
        if r.expect == 'sat':
            q = r.qs[0]
            r.status, r.solver, r.detail, r.time = q.status, q.solver, q.detail, q.time
            continue
        r.time = sum(q.time for q in r.qs)
        if not r.qs:
            r.status, r.solver = 'proved', 'simplifier'
            continue
        w = max(r.qs, key=lambda q: RANK[q.status])
        if w.status == 'refuted':
            hard = [q for q in r.qs if q.status == 'refuted' and not q.soft]
            if hard: w = hard[0]
        r.status, r.detail = w.status, w.detail
        r.soft = w.soft
        r.solver = w.solver if w.status != 'proved' else '+'.join(sorted(set(q.solver.split('/')[0] for q in r.qs)))
    # a guard on several paths (some of which may be infeasible) needs only one
    guards = {}
    for r in results:
        if r.expect == 'sat' and (r.name not in guards or r.status == 'cover'): guards[r.name] = r
    return [r for r in results if r.expect != 'sat' or guards[r.name] is r]
