"""Contracts -> obligations from /repo's current source -> verdicts."""
import concurrent.futures, multiprocessing, os, time, traceback
from . import build, ir, offsets, sym, solve

class Unit:
    """contracts on the functions of one translation unit in one configuration.
    src: path in /repo (or in /verif, for client code of macros and templates)"""
    def __init__(s, label, src, flags, contracts, callees, cxx=False, keep=(), hook=None):
        s.label, s.src, s.flags, s.contracts, s.callees, s.cxx, s.keep, s.hook = label, src, tuple(flags), contracts, callees, cxx, keep, hook

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_job = {}
def work(args):
    ui, ci, tmos, deadline, jobs = args
    u, m, off, tmp = _job[ui]
    C = u.contracts[ci]
    name = C.name
    t0 = time.time()
    out = dict(label='%s [%s]' % (name, u.label), obls=[], error=None, gen=0, paths=0)
    try:
        K = C()
        rec = getattr(C, 'recursive', False)
        ex = sym.Exec(m, {k: v for k, v in u.callees.items() if rec or k != '@' + name}, off)
        if '@' + name not in m.funcs: raise sym.Break('no function of this name')
        obls = ex.verify('@' + name, K)
        out['gen'] = time.time() - t0
        out['paths'] = getattr(ex, 'paths', 0)
        out['trusted'] = [n.lstrip('@') for n in ex.contracts_used]
        out['externals'] = [n.lstrip('@') for n in ex.externals_used]
        for r in solve.discharge(obls, tmp, tmos=tmos, jobs=jobs, deadline=deadline):
            out['obls'].append((r.name, r.kind, r.expect, r.status, r.solver, r.time, r.detail, r.soft, [str(x) for x in (r.trace or [])][-12:]))
    except sym.Break as e:
        out['error'] = 'not analysed: %s' % e
    except Exception as e:
        out['error'] = 'not analysed: internal: %s' % (traceback.format_exc().strip().splitlines()[-1])
        if os.environ.get('DV_DEBUG'): traceback.print_exc()
    out['time'] = time.time() - t0
    return out

def units(us, tmp, tier, deadline, proof, failed, notes):
    tasks = []
    for u in us:
        src = u.src if os.path.isabs(u.src) else os.path.join(VERIF if u.src.startswith(('harness/', 'dv/')) else build.REPO, u.src)
        try:
            off = offsets.offsets(list(u.flags), tmp)
            p = build.raw_ir(src, u.flags, u.cxx, tmp=tmp)
            keep = {C.name for C in u.contracts} | {n.lstrip('@') for n in u.callees} | set(u.keep)
            m = ir.parse_module(build.normalise(p, keep))
        except Exception as e:
            msg = str(e).strip().splitlines()
            notes.append('%s: not analysed: %s' % (u.label, (msg[-1] if msg else type(e).__name__)[:300]))
            proof['breaks'].append(u.label)
            continue
        k = len(_job)
        _job[k] = (u, m, off, tmp)
        tmos = (2, 30) if tier == 'quick' else (5, 120)
        tasks += [(k, i, tmos, deadline, 3) for i in range(len(u.contracts))]
    if not tasks: return
    cost = lambda t: -getattr(_job[t[0]][0].contracts[t[1]], 'cost', 10)
    tasks.sort(key=cost)
    ctx = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(min(4, len(tasks)), mp_context=ctx) as ex:
        for o in ex.map(work, tasks):
            if o['error']:
                notes.append('%s: %s' % (o['label'], o['error']))
                proof['breaks'].append(o['label'])
                continue
            n = d = v = 0
            for name, kind, expect, status, solver, t, detail, soft, trace in o['obls']:
                proof['solver_s'] += t
                if expect != 'valid':
                    v += 1
                    if status == 'vacuous': notes.append('%s: vacuous: %s' % (o['label'], name))
                    continue
                n += 1
                if status == 'proved':
                    d += 1
                    proof['backends'][solver] = proof['backends'].get(solver, 0) + 1
                else:
                    full = '%s: %s' % (o['label'], name)
                    proof['undischarged'].append('%s: %s (%s)' % (full, status, detail or solver))
                    if status == 'refuted':
                        failed.append((full, 'solver: %s\n%s\npath: %s' % (solver, detail if isinstance(detail, str) else '', ' > '.join(trace))))
            proof['obligations'] += n; proof['discharged'] += d; proof['vacuity'] += v
            proof['functions'].append('%s: %d/%d obligations, %d paths, %.0f s' % (o['label'], d, n, o['paths'], o['time']))
            proof['trusted'].update(o.get('trusted') or ()); proof['externals'].update(o.get('externals') or ())
            proof['bodies'].add(o['label'].split()[0])
