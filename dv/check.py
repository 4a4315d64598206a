#!/usr/bin/env python3-vt
"""check.py Cxx: decides one property on /repo's current tree."""
import json, os, sys, time, glob, re, shutil, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import harness
from dv.harness import HERE, REPO

def callees(proof):
    from dv.units import PROVED
    out = []
    for n in sorted(proof['trusted']):
        if n in proof['bodies']: continue
        out.append('contract of %s: %s' % (n, 'its body is discharged by the check of ' + PROVED[n] if n in PROVED else 'assumed'))
    return out + ['external %s: assumed to do what its manual says' % n for n in sorted(proof['externals'])]

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError: seed = 1
    t0 = time.time()
    budget = 560 if tier == 'quick' else 3000
    deadline = t0 + budget
    from dv import registry
    spec = registry.get(prop, tier, seed)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'replays', prop + '-*')): os.unlink(f)
    tmp = harness.scratch()
    violations = []     # (text, replay path, failing input found)
    notes = []
    proof = dict(functions=[], obligations=0, discharged=0, vacuity=0, undischarged=[], backends={}, solver_s=0.0, trusted=set(), externals=set(), bodies=set(), breaks=[])
    def replay(text):
        p = os.path.join(HERE, 'replays', '%s-%d' % (prop, len(violations) + 1))
        open(p, 'w').write(text)
        return p
    try:
        # 1. the bounded stand-in / replay search
        runs = spec.runs
        def is_mine(r):
            c = harness.classify(r.msg)
            return c is None or prop in c or bool(r.props and prop in r.props)
        notes += harness.execute(runs, tmp, deadline=t0 + budget*0.45, mine=is_mine)
        other = []
        bad = [r for r in runs if r.ok is False]
        mine = []
        for r in bad:
            if is_mine(r): mine.append(r)
            else: other.append(r)
        known = []
        if spec.known:
            kn = [k.run for k in spec.known]
            notes += harness.execute(kn, tmp, deadline=deadline)
            for k in spec.known:
                if k.run.ok is False and re.search(k.pattern, k.run.msg):
                    print('KNOWN-FINDING: property=%s %s' % (prop, k.text)); known.append(k.text)
                elif k.run.ok is False: mine.append(k.run)
        # 2. deductive verification
        failed = []
        if spec.units:
            from dv import prove
            prove.units(spec.units, tmp, tier, deadline, proof, failed, notes)
        # 3. verdict
        if mine:
            mine.sort(key=lambda r: (len(r.args[1:2]) and r.args[1].isdigit() and int(r.args[1]) or 0))
            r = mine[0]
            why = 'property %s: %s' % (prop, r.msg)
            if failed: why += '; undischarged obligation: ' + failed[0][0]
            extra = ''.join('\n# failed obligation: %s\n# %s' % (n, d.replace('\n', '\n# ')) for n, d in failed[:20])
            p = replay(harness.replay_script(r, why) + extra)
            violations.append((why, p))
            print('%s (%s %s)' % (r.msg, r.build.prog, ' '.join(r.build.flags)))
            for n, d in failed[:8]: print('failed obligation: %s' % n)
            print('VIOLATION property=%s replay=%s' % (prop, p))
        elif failed:
            txt = 'property %s\nThe verifier does not accept these obligations of /repo\'s current source; no failing input was found.\n' % prop
            for n, d in failed: txt += '\nfailed obligation: %s\n%s\n' % (n, d)
            p = replay(txt)
            violations.append((failed[0][0], p))
            for n, d in failed[:8]: print('failed obligation: %s' % n)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
        for r in other[:3]: notes.append('a run failed with what other properties are about: %s' % r.msg)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    done = [r for r in runs if r.ok is not None]
    cov = dict(
        obligations=proof['obligations'], discharged=proof['discharged'],
        checker_cmd='python3-vt dv/check.py %s' % prop,
        functions_under_contract=proof['functions'],
        vacuity_guards=proof['vacuity'],
        backends=proof['backends'], solver_s=round(proof['solver_s'], 1),
        undischarged=proof['undischarged'], not_analysed=proof['breaks'],
        bounded=dict(note='bounded stand-in for the functions not listed as under contract; never counted as proved',
                     runs=len(done), programs=sorted(set(r.build.prog for r in done)),
                     configurations=sorted(set(' '.join(r.build.flags) for r in done)), failing=len(bad),
                     cpu_s=round(sum(r.time for r in done), 1)),
        evaluations=len(done), notes=notes, known_findings=known,
        trusted_base=callees(proof) + spec.trusted,
        explanation=spec.explanation)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.level, coverage=cov, assumptions=spec.assumptions,
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    open(os.path.join(HERE, 'evidence', prop + '.json'), 'w').write(json.dumps(ev, indent=1) + '\n')
    print('%s %s: %d/%d obligations discharged in %d functions, %d bounded runs, %d violations, %.0f s' % (
        prop, tier, proof['discharged'], proof['obligations'], len(proof['functions']), len(done), len(violations), time.time() - t0))
    for n in notes[:10]: print('note: ' + n)
    sys.exit(1 if violations else 0)

if __name__ == '__main__':
    main()
