"""Field offsets and configuration constants, read from /repo's headers with
the compiler on every run."""
import os, re
from . import build, ir
FIELDS = {
 'PS': ('struct GGGGC_PointerStack', ['next', 'size', 'pointers']),
 'Pool': ('struct GGGGC_Pool', ['next', 'free', 'end', 'survivors', 'start']),
 'PoolG': ('struct GGGGC_Pool', ['remember', 'firstObject', 'gen'], 'GGGGC_GENERATIONS > 1'),
 'PoolB': ('struct GGGGC_Pool', ['breakTableSize', 'breakTable'], 'defined(GGGGC_COLLECTOR_GEMBC)'),
 'PoolF': ('struct GGGGC_Pool', ['finalizers'], 'defined(GGGGC_FEATURE_FINALIZERS)'),
 'Header': ('struct GGGGC_Header', ['descriptor__ptr']),
 'Desc': ('struct GGGGC_Descriptor', ['size', 'user__ptr']),
 'DescP': ('struct GGGGC_Descriptor', ['pointers'], '!defined(GGGGC_FEATURE_EXTTAG)'),
 'DescT': ('struct GGGGC_Descriptor', ['tags'], 'defined(GGGGC_FEATURE_EXTTAG)'),
 'Slot': ('struct GGGGC_DescriptorSlot', ['lock', 'descriptor', 'size', 'pointers']),
 'Arr': ('struct GGC_voidp__ggggc_parray', ['length', 'a__ptrs']),
 'PL': ('struct GGGGC_PoolList', ['next', 'pool']),
 'PSL': ('struct GGGGC_PointerStackList', ['next', 'pointerStack']),
 'JPSL': ('struct GGGGC_JITPointerStackList', ['next', 'cur', 'top'], 'defined(GGGGC_FEATURE_JITPSTACK)'),
 'List': ('struct GGC_List__ggggc_struct', ['length__data', 'head__ptr', 'tail__ptr']),
 'Node': ('struct GGC_ListNode__ggggc_struct', ['next__ptr', 'el__ptr']),
 'Map': ('struct GGC_Map__ggggc_struct', ['size__data', 'used__data', 'entries__ptr']),
 'Ent': ('struct GGC_MapEntry__ggggc_struct', ['next__ptr', 'key__ptr', 'value__ptr']),
 'Fin': ('struct GGGGC_FinalizerEntry__ggggc_struct', ['next__ptr', 'obj__ptr', 'finalizer__data'], 'defined(GGGGC_FEATURE_FINALIZERS)'),
 'TS': ('struct ToSearch', ['prev', 'next', 'used', 'buf']),
 'TArg': ('struct GGC_ThreadArg__ggggc_struct', ['parg__ptr', 'darg__data']),
}
CLIENT = {'Node': ['c1__data', 'next__ptr', 'i__data', 's__data', 'other__ptr', 'id__data', 'arr__ptr'], 'Wide': ['first__ptr', 'far__ptr', 'last__ptr'],
 'Odd': ['x__data', 'c__data'], 'OddPtr': ['c__data', 'i__data', 'p__ptr', 's__data'], 'GGC_ThreadArg': ['parg__ptr', 'darg__data']}
CONSTS = {'POOL_BYTES': 'GGGGC_POOL_BYTES', 'CARD_SIZE': 'GGGGC_CARD_SIZE', 'CARDS': 'GGGGC_CARDS_PER_POOL', 'GENS': 'GGGGC_GENERATIONS', 'MINOBJ': 'GGGGC_MINIMUM_OBJECT_SIZE', 'POOL_SIZE': 'GGGGC_POOL_SIZE', 'TOSEARCH_SZ': 'TOSEARCH_SZ',
 'NDD': 'sizeof(ggggc_descriptorDescriptors)/sizeof(void *)', 'WPP': 'GGGGC_WORDS_PER_POOL', 'sizeof.Header': 'sizeof(struct GGGGC_Header)', 'sizeof.Desc': 'sizeof(struct GGGGC_Descriptor)', 'sizeof.TS': 'sizeof(struct ToSearch)', 'sizeof.PS': 'sizeof(struct GGGGC_PointerStack)'}
ALIAS = {'PoolG': 'Pool', 'PoolB': 'Pool', 'PoolF': 'Pool', 'DescP': 'Desc', 'DescT': 'Desc'}
def offsets(flags, tmp):
    src = ['#include <stddef.h>', '#include "ggggc-internals.h"', '#include "ggggc/collections/list.h"', '#include "ggggc/collections/map.h"']
    names = []
    for k, spec in FIELDS.items():
        st, fs = spec[0], spec[1]
        if len(spec) > 2: src.append('#if ' + spec[2])
        for f in fs:
            n = ALIAS.get(k, k) + '.' + f.replace('__ptr', '').replace('__data', '')
            v = 'dvo_%d' % len(names)
            names.append(n)
            src.append('const unsigned long %s = offsetof(%s, %s);' % (v, st, f))
        if len(spec) > 2: src.append('#endif')
    for k, e in CONSTS.items():
        v = 'dvo_%d' % len(names)
        names.append(k)
        src.append('const unsigned long %s = %s;' % (v, e))
    import hashlib
    path = os.path.join(tmp, 'offs_%s.c' % hashlib.sha1(' '.join(flags).encode()).hexdigest()[:10])
    open(path, 'w').write('\n'.join(src) + '\n')
    t = open(build.raw_ir(path, flags, tmp=tmp)).read()
    out = {}
    for i, n in enumerate(names):
        m = re.search(r'^@dvo_%d = .*constant i64 (-?\d+)' % i, t, re.M)
        if m: out[n] = int(m.group(1))
    out['TAGGING'] = int('-DGGGGC_FEATURE_TAGGING' in flags)
    # a type declared in a source file, for the contracts of that file only
    q = path[:-2] + '_ti.c'
    open(q, 'w').write('#include "threads.c"\nconst unsigned long dvo_func = offsetof(struct ThreadInfo__ggggc_struct, func__data), dvo_arg = offsetof(struct ThreadInfo__ggggc_struct, arg__ptr), dvo_size = sizeof(struct ThreadInfo__ggggc_struct);\n')
    try:
        t = open(build.raw_ir(q, flags, tmp=tmp)).read()
        for n in ('func', 'arg', 'size'): out['TI.' + n] = int(re.search(r'^@dvo_%s = .*constant i64 (-?\d+)' % n, t, re.M).group(1))
    except Exception: pass
    # the sample types of the client code
    q = path[:-2] + '_cl.c'
    F = [(ty, m) for ty, ms in CLIENT.items() for m in ms]
    open(q, 'w').write('#include <stddef.h>\n#include "%s"\n' % os.path.join(os.path.dirname(os.path.abspath(__file__)), 'client', 'types.h')
        + ''.join('const unsigned long dvo_%d = offsetof(struct %s__ggggc_struct, %s);\n' % (i, ty, m) for i, (ty, m) in enumerate(F))
        + ''.join('const unsigned long dvs_%s = sizeof(struct %s__ggggc_struct);\n' % (ty, ty) for ty in CLIENT))
    try:
        t = open(build.raw_ir(q, flags, tmp=tmp)).read()
        for i, (ty, m) in enumerate(F): out['%s:%s' % (ty, m.replace('__ptr', '').replace('__data', ''))] = int(re.search(r'^@dvo_%d = .*constant i64 (-?\d+)' % i, t, re.M).group(1))
        for ty in CLIENT: out['sizeof:' + ty] = int(re.search(r'^@dvs_%s = .*constant i64 (-?\d+)' % ty, t, re.M).group(1))
    except Exception: pass
    return out
