"""What decides each property: contracts (units) and bounded runs."""
from .harness import Build, Run

SMALL = ['-DGGGGC_POOL_SIZE=14', '-DGGGGC_CARD_SIZE=9']
MID = ['-DGGGGC_POOL_SIZE=16', '-DGGGGC_CARD_SIZE=10']
UNIT = ['-DGGGGC_POOL_SIZE=18', '-DGGGGC_CARD_SIZE=9']
GEN = lambda n: ['-DGGGGC_GENERATIONS=%d' % n]
NOGNUC = ['-DGGGGC_NO_GNUC_FEATURES']
PMS = ['-DGGGGC_COLLECTOR=portablems']
FEAT = {'': [], 'fin': ['-DGGGGC_FEATURE_FINALIZERS'], 'tag': ['-DGGGGC_FEATURE_TAGGING'], 'ext': ['-DGGGGC_FEATURE_EXTTAG'],
        'jit': ['-DGGGGC_FEATURE_JITPSTACK']}
def feats(s):
    return [f for k in s.split('+') if k for f in FEAT[k]]
CFG = {'g2': SMALL, 'g3': SMALL + GEN(3), 'g1': SMALL + GEN(1), 'g5': MID + GEN(5), 'pms': SMALL + PMS, 'dbg': SMALL + ['-DGGGGC_DEBUG_MEMORY_CORRUPTION']}

class Known:
    def __init__(s, run, pattern, text): s.run, s.pattern, s.text = run, pattern, text

class Spec:
    def __init__(s):
        s.runs = []; s.units = []; s.known = []
        s.level = 'other'; s.explanation = ''; s.assumptions = []; s.trusted = []

def get(prop, tier, seed):
    s = Spec()
    big = tier == 'thorough'
    K = 60 if big else int(__import__("os").environ.get("DV_K","12"))
    def heap(cfgs, fs, modes, seeds=2, steps=3000, props=None):
        for c in cfgs.split():
            for f in fs.split(','):
                b = Build('heap.c', CFG[c] + feats(f))
                for m in modes:
                    for i in range(seeds*K):
                        a = [seed*1000 + i*10 + m, steps*(4 if big else 1), m]
                        if i % 3 == 1: a.append(3000)
                        if i % 3 == 2: a.append(300)
                        s.runs.append(Run(b, a))
    def prog(p, flagsets, argsets, seeds=2, base=SMALL, ld=(), drop=(), cc=None, limit=25):
        for fl in flagsets:
            b = Build(p, base + fl, ld=ld, drop=drop, cc=cc)
            for a in argsets:
                for i in range(seeds*K): s.runs.append(Run(b, [seed*100 + i] + a, limit, props={prop}))
    WRAP = ['-DH_WRAP', '-Wl,--wrap=posix_memalign,--wrap=malloc,--wrap=mmap,--wrap=sbrk']
    def threads(flagsets, argsets, seeds):
        prog('threads.c', [['-DH_WRAP'] + f for f in flagsets], argsets, seeds, base=['-DGGGGC_POOL_SIZE=15', '-DGGGGC_CARD_SIZE=9'], ld=['-Wl,--wrap=pthread_create'], limit=25)
    F = [feats(x) for x in ('', 'ext', 'tag', 'fin', 'jit')]
    if prop == 'C01':
        heap('g2 g3 g5', ',ext,fin,jit', (0, 1, 3, 4, 5), 1)
        heap('g2 g3', '', (0, 1, 3, 4, 5), 3)
    elif prop == 'C02':
        heap('g2 g3 g5', '', (0, 1, 3, 4, 5), 3)
        heap('g2 g3', 'ext,tag', (1, 3, 4), 1)
    elif prop == 'C03':
        heap('g1 g2 g3 g5', '', (0, 2, 5), 3)
        heap('g1 g2', 'ext,fin,tag,jit', (0, 2), 1)
    elif prop == 'C04':
        heap('g1 g2 g3 g5', '', (0, 2, 3, 5), 2)
        heap('g1 g2', 'ext,fin', (0, 2), 1)
    elif prop == 'C05':
        prog('unit.c', F + [GEN(1), PMS, PMS + feats('ext')], [['obj', 200], ['desc', 150], ['arr', 150]], 1, base=UNIT)
        heap('g2 g1 pms', ',fin', (0, 3, 5), 1)
    elif prop == 'C06':
        prog('unit.c', F + [GEN(1), PMS, PMS + feats('ext') ], [['desc', 300], ['obj', 100]], 2, base=UNIT)
    elif prop == 'C07':
        prog('unit.c', F + [GEN(1), PMS, PMS + feats('ext') ], [['arr', 300]], 2, base=UNIT)
        heap('g2 pms', ',ext', (0,), 1)
    elif prop == 'C08':
        prog('unit.c', [WRAP[:1] + x for x in ([], ['-DGGGGC_USE_MALLOC'], ['-DGGGGC_USE_SBRK', '-DGGGGC_NO_THREADS'], feats('fin'), GEN(1), GEN(4), PMS)], [['pool', 400]], 2, base=UNIT, ld=WRAP[1:])
        prog('unit.c', [WRAP[:1] + ['-DH_INC_ALLOCATOR="allocator.c"', '-DH_MMAP']], [['pool', 400]], 2, base=UNIT, ld=WRAP[1:], drop=('allocator.c',))
    elif prop == 'C09':
        heap('g2 g3 g1 pms', '', (0, 1, 2, 4), 1)
        prog('roots.c', [[], PMS, GEN(1), GEN(3), feats('ext'), feats('tag')], [[250]], 1, base=MID)
        prog('roots.c', [[], NOGNUC, NOGNUC + PMS], [[250]], 1, base=MID, cc='g++')
    elif prop == 'C19' or prop == 'C20':
        threads([[], PMS, GEN(1), GEN(3), GEN(3) + feats('jit'), PMS + feats('jit'), feats('fin'), feats('ext')], [[400]], 1)
    elif prop == 'C21':
        prog('cxx.cc', [[], NOGNUC, PMS, GEN(1), GEN(4), feats('tag'), feats('ext'), NOGNUC + feats('fin')], [[1500]], 1, base=['-DGGGGC_POOL_SIZE=15', '-DGGGGC_CARD_SIZE=9'])
        prog('roots.c', [[], NOGNUC], [[250]], 1, base=MID, cc='g++')
    elif prop == 'C10' or prop == 'C11':
        heap('pms', ',ext,tag,fin,jit,ext+fin,tag+jit', (0, 2, 3, 5), 2)
    elif prop == 'C12':
        prog('lists.c', [[], PMS, GEN(1), feats('ext'), feats('fin'), feats('tag'), feats('jit')], [[400, 12]], 3)
    elif prop == 'C13':
        prog('maps.c', [[], PMS, GEN(1), feats('ext'), feats('fin'), feats('tag'), feats('jit')], [[400, 0]], 3, base=UNIT)
    elif prop == 'C14':
        prog('maps.c', [[], PMS, GEN(1), feats('ext'), feats('fin'), feats('tag'), feats('jit')], [[400, 1]], 3, base=UNIT)
    elif prop == 'C15':
        heap('g1 g2 g3 pms', 'fin,fin+ext,fin+jit', (0, 1, 2, 3, 4), 1)
        heap('g1 g2 g3 pms', 'fin', (0, 1, 4), 2)
        s.known.append(Known(Run(Build('known_c15.c', feats('fin')), [1]), 'finalizer of a reachable, unmoved object ran in a full collection',
            'a full gembc collection runs the finalizer of a reachable object that does not move (harness/known_c15.c)'))
    elif prop == 'C16':
        heap('g1 g2 g3 pms', 'tag,tag+jit', (0, 1, 2, 4), 2)
    elif prop == 'C17':
        heap('g1 g2 g3 pms', 'ext', (0, 1, 2, 4), 2)
        heap('g2 pms', 'ext+jit,ext+fin', (0, 2), 1)
        prog('unit.c', [feats('ext'), PMS + feats('ext')], [['desc', 300]], 2, base=UNIT)
    elif prop == 'C18':
        heap('g1 g2 g3 pms', 'jit', (0, 1, 2, 4), 2)
        heap('g2 g1 pms', 'jit+ext,jit+tag,jit+fin', (0, 1, 2), 1)
        threads([feats('jit'), GEN(1) + feats('jit'), PMS + feats('jit')], [[300]], 1)
    elif prop == 'C22':
        prog('unit.c', F + [GEN(1), PMS, PMS + feats('ext')], [['slot', 200]], 2, base=UNIT)
        threads([[], PMS, feats('ext')], [[150, 'slot'], [250]], 1)
    else:
        raise SystemExit('no check for ' + prop)
    from . import units, manifest_data
    s.units = units.get(prop, big)
    s.level = manifest_data.level(prop)
    s.assumptions = list(manifest_data.ASSUME) if s.units else []
    s.explanation = manifest_data.note(prop)
    return s
