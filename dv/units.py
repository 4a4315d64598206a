"""Which contracts each property rests on, in which configurations."""
from .prove import Unit
from .contracts import lists, mutator, alloc, pools, desc, threads, roots, client

FEAT = {'': [], 'fin': ['-DGGGGC_FEATURE_FINALIZERS'], 'tag': ['-DGGGGC_FEATURE_TAGGING'], 'ext': ['-DGGGGC_FEATURE_EXTTAG'],
        'jit': ['-DGGGGC_FEATURE_JITPSTACK'], 'g1': ['-DGGGGC_GENERATIONS=1'], 'g3': ['-DGGGGC_GENERATIONS=3'], 'pms': ['-DGGGGC_COLLECTOR=portablems']}
def fl(cfg): return [f for k in cfg.split('+') if k for f in FEAT[k]]

def named(mod, names): return [getattr(mod, n) for n in names.split()]
def table(mod, names): return {'@' + getattr(mod, n).name: getattr(mod, n)() for n in names.split()}

# function -> the property whose check discharges its body; the rest of the callees is assumed
PROVED = {
 'ggggc_newPool': 'C08', 'ggggc_newPoolGen': 'C05', 'ggggc_mallocRaw': 'C05 (generational collector)', 'ggggc_malloc': 'C05 (generational collector)', 'ggggc_mallocGen1': 'C02',
 'ggggc_freeGeneration': 'C08', 'ggggc_allocateDescriptorDescriptor': 'C22', 'ggggc_allocateDescriptor': 'C06', 'ggggc_allocateDescriptorL': 'C06',
 'ggggc_allocateDescriptorPA': 'C07', 'ggggc_allocateDescriptorDA': 'C07', 'ggggc_allocateDescriptorSlot': 'C22', 'ggggc_mallocSlot': 'C22', 'ggggc_mallocPointerArray': 'C07',
 'ggggc_mallocDataArray': 'C07',
 'ggc_pre_blocking': 'C19', 'ggc_post_blocking': 'C19', 'ggc_mutex_lock': 'C19', 'ggc_thread_create': 'C20', 'ggggc_yield': 'C09 (protocol of a stopped thread)',
}

def get(prop, big):
    out = []
    def add(cfg, src, mod, names, callees, **kw):
        out.append(Unit(cfg or 'default', src, fl(cfg), named(mod, names), callees, **kw))
    def acc(cfg, cs): out.append(Unit('client, ' + (cfg or 'default'), 'dv/client/access.c', fl(cfg), cs, client.CALLEES))
    YIELD = {'@ggggc_yield': threads.Yield()}
    ALLOC = table(alloc, 'MallocRaw NewPoolGen Collect0 NewPool Yield')
    if prop == 'C02':
        add('g3', 'collector/gembc.c', alloc, 'MallocGen1 NewPoolGen', ALLOC)
        if big: add('', 'collector/gembc.c', alloc, 'MallocGen1', ALLOC)
        for cfg in ('', 'g3', 'ext'): acc(cfg, client.C_POINTERS)
    elif prop == 'C05':
        for cfg in ('', 'g1', 'g3', 'fin', 'jit+ext'): add(cfg, 'collector/gembc.c', alloc, 'MallocRaw Malloc NewPoolGen', ALLOC)
        for cfg in ('', 'pms'): add(cfg, 'allocator.c', desc, 'MallocSlot', desc.ALL)
    elif prop == 'C06':
        for cfg in ('', 'g1', 'pms', 'jit+tag+fin'): add(cfg, 'allocator.c', desc, 'L PA DA DD', desc.ALL)
        add('ext', 'allocator.c', desc, 'LT PA DA DD', desc.ALL)
        for cfg in ('', 'pms', 'ext'): acc(cfg, [client.Layouts] + client.C_DATA + client.C_READS)
    elif prop == 'C07':
        for cfg in ('', 'g1', 'pms', 'ext', 'tag+fin'): add(cfg, 'allocator.c', desc, 'PA DA PArray DArray', desc.ALL)
        for cfg in ('', 'pms', 'ext'): acc(cfg, client.C_LENGTH + [c for c in client.C_DATA + client.C_READS if c.elem])
    elif prop == 'C08':
        for cfg in ('', 'g1', 'fin'): add(cfg, 'allocator.c', pools, 'NewPoolV FreeGeneration ExpandPoolList', {})
        add('pms', 'allocator.c', pools, 'NewPoolUnaligned FreeGenerationUnaligned', {})
        out.append(Unit('mmap', 'harness/alloc_mmap.c', [], named(pools, 'NewPoolV FreeGeneration'), {}))
        out.append(Unit('malloc', 'allocator.c', ['-DGGGGC_USE_MALLOC'], named(pools, 'NewPoolMalloc FreeGeneration'), {}))
        for cfg in ('', 'g3', 'g1'): add(cfg, 'collector/gembc.c', alloc, 'NewPoolGen NewPoolGenProto', ALLOC)
    elif prop == 'C09':
        add('', 'collector/gembc.c', threads, 'YieldBody', {})
        add('pms', 'collector/portablems.c', threads, 'YieldBodyMS', threads.MS)
        add('', 'roots.c', roots, 'Globalize', {})
        NG = ['-DGGGGC_NO_GNUC_CLEANUP']
        out.append(Unit('push', 'dv/client/push.c', [], roots.PUSH + roots.MANUAL + roots.PUSHN, roots.YIELD))
        out.append(Unit('push, no gnuc', 'dv/client/push.c', NG, roots.PUSH + roots.MANUAL, roots.YIELD))
        out.append(Unit('push, C++', 'dv/client/push.c', [], roots.PUSH + roots.MANUAL, roots.YIELD, cxx=True))
        out.append(Unit('push, C++ no gnuc', 'dv/client/push.c', NG, roots.PUSH + roots.MANUAL, roots.YIELD, cxx=True))
    elif prop == 'C18':
        add('jit', 'collector/gembc.c', threads, 'YieldBody', {})
        add('jit+pms', 'collector/portablems.c', threads, 'YieldBodyMS', threads.MS)
        add('jit', 'threads.c', threads, 'PreBlocking PostBlocking', YIELD)
    elif prop == 'C19':
        add('', 'threads.c', threads, 'PreBlocking PostBlocking BarrierWait MutexLock SemWait ThreadJoin', dict(YIELD, **threads.BLOCK))
        add('jit+pms', 'threads.c', threads, 'PreBlocking' + (' PostBlocking' if big else ''), YIELD)
    elif prop == 'C12':
        out.append(Unit('default', 'collections/list.c', [], lists.ALL, mutator.COMMON))
    elif prop == 'C17':
        add('ext', 'allocator.c', desc, 'LT Tags PA DA', desc.ALL)
    elif prop == 'C20':
        add('', 'allocator.c', pools, 'FreeGeneration', {})
        add('pms', 'allocator.c', pools, 'FreeGenerationUnaligned', {})
        for cfg in ('', 'pms+jit'):
            add(cfg, 'threads.c', threads, 'Create Wrapper', threads.MAIN)
        add('', 'threads.c', threads, 'PreBlocking PostBlocking', YIELD)
    elif prop == 'C21':
        for cfg, f in (('default', []), ('no gnuc', ['-DGGGGC_NO_GNUC_FEATURES']), ('g3', fl('g3')), ('g1', fl('g1')), ('pms', fl('pms')), ('tag+ext+jit', fl('tag+ext+jit'))):
            out.append(Unit('wrappers, ' + cfg, 'dv/client/wrap.cc', f, client.W + client.CX, client.CALLEES, cxx=True))
        out.append(Unit('client', 'dv/client/access.c', [], client.C_ALL, client.CALLEES))
    elif prop == 'C22':
        for cfg in ('', 'g1', 'pms', 'ext', 'jit+tag+fin'): add(cfg, 'allocator.c', desc, 'DD Slot MallocSlot', desc.ALL)
    return out
