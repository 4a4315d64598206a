#!/usr/bin/env python3-vt
"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from dv.manifest_data import NA, PROOF, PART, level, tech, note
checks = []
for p in ['C%02d' % i for i in range(1, 25)]:
    if p in NA: continue
    checks.append(dict(property=p, quick_cmd='python3-vt dv/check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt dv/check.py ' + p,
                       evidence_file='evidence/%s.json' % p, technique=tech(p), level=level(p), level_note=note(p)))
m = dict(version=1, setup_cmd='python3-vt dv/setup.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='No hooks in /repo. Contracts are sidecar files in dv/contracts; obligations are generated from the LLVM IR clang produces from /repo\'s current sources on every run. See DESIGN.md.')
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')

# DESIGN.md: the fixed text with the tables of what decides what
import glob
D = os.path.join(HERE, 'dv', 'DESIGN.in.md')
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
rows = ['| property | decided by | what is covered |', '|---|---|---|']
for p in props:
    i = p['id']
    if i in NA: continue
    rows.append('| %s %s | %s | %s |' % (i, p['title'], 'proof' if i in PROOF else 'proof of parts, bounded rest' if i in PART else 'bounded stand-in', note(i)))
seeds = ['| change | property | caught by | what it needs |', '|---|---|---|---|']
res = os.path.join(HERE, 'dv', 'seeds.json')
res = json.load(open(res)) if os.path.exists(res) else {}
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    seeds.append('| %s: %s | %s | %s | %s |' % (n, m['what_it_breaks'], m['property'], res.get(n, ''), m['needs']))
t = open(D).read().replace('@@TABLE@@', '\n'.join(rows)).replace('@@SEEDS@@', '\n'.join(seeds))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
