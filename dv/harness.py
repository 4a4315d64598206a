"""The concrete contract harness: programs that evaluate the contracts'
postconditions on executions of /repo's real code.  Used (a) as the bounded
stand-in for functions outside the verifier's reach, (b) to find a concrete
failing input when an obligation is not discharged."""
import os, re, shutil, signal, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('GGGGC_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDIR = os.path.join(HERE, 'harness')

def sources():
    """the library's own list of sources"""
    try:
        mk = open(os.path.join(REPO, 'Makefile')).read().replace('\\\n', ' ')
        objs = re.search(r'^OBJS=(.*)$', mk, re.M).group(1).split()
        s = [os.path.join(REPO, o[:-2] + '.c') for o in objs]
        if s and all(os.path.exists(x) for x in s): return s
    except Exception:
        pass
    return [os.path.join(REPO, x) for x in ('allocator.c', 'collector/gembc.c', 'collector/portablems.c', 'globals.c',
            'roots.c', 'threads.c', 'collections/list.c', 'collections/map.c')]

class Build:
    """prog: file in harness/; flags: configuration; drop: library sources the program includes itself"""
    def __init__(s, prog, flags=(), cc=None, drop=(), ld=()):
        s.prog, s.flags, s.drop, s.ld = prog, tuple(flags), tuple(drop), tuple(ld)
        s.cc = cc or ('g++' if prog.endswith('.cc') else 'gcc')
        s.key = (prog, s.flags, s.cc, s.drop, s.ld)
    def cmds(s, out):
        std = ['-std=gnu++17', '-fpermissive', '-x', 'c++'] if s.cc == 'g++' else ['-std=gnu99']
        srcs = [x for x in sources() if os.path.relpath(x, REPO) not in s.drop]
        return [s.cc, '-O1', '-g', '-w'] + std + ['-D_XOPEN_SOURCE=600', '-I' + REPO, '-I' + HDIR] + list(s.flags) + \
            [os.path.join(HDIR, s.prog)] + srcs + (['-x', 'none'] if s.cc == 'g++' else []) + ['-o', out, '-lpthread'] + list(s.ld)

class Run:
    def __init__(s, build, args, limit=25, props=None, env=None):
        s.build, s.args, s.limit, s.props, s.env = build, [str(a) for a in args], limit, props, env
        s.ok = s.skipped = None
        s.msg = ''; s.time = 0.0; s.out = ''

# messages that speak about one property; everything else is about preservation of the heap in general
CLASSES = [
    (r'broken descriptor|with descriptor word|descriptor outside', None),
    (r'finalizer', {'C15'}),
    (r'JIT', {'C18', 'C19'}),
    (r'descriptor (of one type|slot does not|type returned)', {'C22'}),
    (r'words are in use|words are not available|allocates from|blocks are not merged|not packed', {'C04', 'C11'}),
    (r'free block|mark left behind|walking a pool|by walking its pool', {'C10', 'C11'}),
    (r'is not remembered', {'C02'}),
    (r'tagged user pointer|tag \d+ not stored|header tag', {'C17', 'C06', 'C16'}),
    (r'tagged word', {'C16'}),
    (r'descriptor', {'C06', 'C22', 'C17', 'C16', 'C18', 'C05'}),
    (r'user pointer', {'C06'}),
    (r'(length|size) of a (pointer|data) array', {'C07'}),
    (r'allocation outside|does not fit into its pool|below the free pointer|new object of|allocation returned', {'C05', 'C01', 'C03', 'C10'}),
]
def classify(msg):
    for rx, props in CLASSES:
        if re.search(rx, msg): return props
    return None

def scratch():
    d = os.environ.get('DV_SCRATCH')
    return tempfile.mkdtemp(prefix='dv-', dir=d)

def execute(runs, tmp, jobs=8, deadline=None, mine=None):
    """build and run everything; returns notes on what could not be built.  Once a run has failed that `mine`
    accepts, no more are started and those still running are given a few seconds."""
    stop = [None]
    builds = {}
    notes = []
    for r in runs: builds.setdefault(r.build.key, r.build)
    path = {}
    def mk(k):
        b = builds[k]
        out = os.path.join(tmp, 'h%d' % list(builds).index(k))
        try:
            p = subprocess.run(b.cmds(out), capture_output=True, text=True, errors='replace', timeout=240)
        except subprocess.TimeoutExpired:
            return k, None, 'compiler time limit'
        if p.returncode: return k, None, p.stderr[-1500:]
        return k, out, ''
    def go(r):
        exe = path.get(r.build.key)
        if not exe: r.skipped = True; return
        if deadline and time.time() > deadline or stop[0]: r.skipped = True; return
        for attempt in (0, 1):
            t = time.time()
            p = subprocess.Popen([exe] + r.args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                                 start_new_session=True, cwd=tmp, env=dict(os.environ, **(r.env or {})))
            to = False
            end = t + r.limit*(1 + 2*attempt)
            while True:
                try:
                    o, e = p.communicate(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    now = time.time()
                    if now < end and not (stop[0] and now > stop[0] + 5): continue
                to = True
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                o, e = p.communicate()
                if now < end: r.skipped = True; return
                break
            r.time = time.time() - t
            if not to: break        # a time limit is only believed when it happens twice
        o = o.decode('utf-8', 'replace'); e = e.decode('utf-8', 'replace')
        r.out = (o[-3000:] + '\n' + e[-1500:]).strip()
        if to: r.ok, r.msg = False, 'does not finish within %d s' % (3*r.limit)
        elif p.returncode:
            last = [l for l in o.splitlines() if l.startswith('FAIL')]
            r.ok = False
            r.msg = last[-1] if last else 'ended with status %d%s' % (p.returncode, ' (%s)' % signal.Signals(-p.returncode).name if p.returncode < 0 else '')
        else: r.ok = True
        if r.ok is False and mine and mine(r) and not stop[0]: stop[0] = time.time()
    with ThreadPoolExecutor(jobs) as ex:
        for k, out, err in ex.map(mk, list(builds)):
            path[k] = out
            if not out: notes.append('%s %s: not built: %s' % (k[0], ' '.join(k[1]), err.strip().splitlines()[0][:200] if err.strip() else ''))
        list(ex.map(go, runs))
    return notes

def replay_script(r, why):
    cmd = r.build.cmds('$D/prog')
    q = lambda a: a if re.match(r'^[-\w./=+,$]+$', a) else "'" + a.replace("'", "'\\''") + "'"
    return '#!/bin/sh\n# %s\n# builds /repo with the program evaluating the contract and runs the failing input\nD=$(mktemp -d)\n%s || exit 2\n%s\nrc=$?\nrm -r "$D"\nexit $rc\n\n: <<\'OUTPUT\'\n%s\nOUTPUT\n' % (
        why.replace('\n', ' '), ' '.join(q(a) for a in cmd), '"$D/prog" ' + ' '.join(q(a) for a in r.args), r.out)
