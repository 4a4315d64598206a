DV = 'deductive verification of contracts on the real functions (VCs from LLVM IR, SMT portfolio)'
BC = 'bounded check of the contracts\' postconditions on the real code (stand-in, not proved)'
RUN = ' A bounded contract harness runs beside the proof, to find a failing input for a failed obligation.'
# every function the property is anchored in is under contract and discharged
PROOF = {
 'C06': 'ggggc_allocateDescriptor, -L, -PA, -DA and -Descriptor are proved for all sizes, layouts and heaps; the allocator and safe points are used through contracts (proved elsewhere, see the evidence). The layout constants of the type macros and the member macros are checked for sample types only.' + RUN,
 'C07': 'The array allocators and their descriptors are proved for all lengths and element sizes that fit a pool.' + RUN,
 'C12': 'All list operations are proved against sequence contracts for all lists, heaps and collection points; the allocator and safe points are used through contracts.' + RUN,
 'C21': 'Every member of the wrapper classes is verified in client functions that construct, copy, assign, pass, destroy and access wrappers of sample types, with a possible collection between any two steps, in six configurations: the wrappers are what is registered, references are current and to the right object, exactly the element or member asked for is read or written, pointer stores are recorded for the collector.' + RUN,
 'C22': 'Descriptor slots and the table of descriptor types are proved: one descriptor per slot, never replaced, registered as a root before the next possible collection, also against other threads under the slot and table locks.' + RUN,
}
# contracts discharged for part of the functions; the rest is a bounded stand-in
PART = {
 'C02': 'Proved: allocation in older generations keeps the first-object table right (ggggc_mallocGen1, ggggc_newPoolGen); every pointer write macro records the card of the object before the next safe point and writes exactly the member. Bounded stand-in: the scan of the recorded cards.',
 'C05': 'Proved: ggggc_mallocRaw, ggggc_malloc, ggggc_newPoolGen of the generational collector, ggggc_mallocSlot. Bounded stand-in: allocation in the mark-and-sweep collector.',
 'C08': 'Proved: ggggc_newPool (posix_memalign, mmap, malloc back ends), ggggc_newPoolGen, ggggc_freeGeneration and ggggc_expandPoolList with its callback, against ghost lists of free and owned pools. Bounded stand-in: the sbrk back end.',
 'C17': 'Proved: descriptors made from tag lists and layouts (ggggc_allocateDescriptorT, -L, -PA, -DA). Bounded stand-in: the scan of tagged objects.',
 'C09': 'Proved: a thread stopped by another thread\'s collection registers its pointer stack and pools exactly once, between the stop and the collection (ggggc_yield of both collectors); ggggc_globalize; every push macro, in generated client code, in C and C++ with and without the cleanup attribute, on every way out of a scope. Bounded stand-in: the scan of the registered variables.',
 'C18': 'Proved: ggggc_yield (both collectors), ggc_pre_blocking and ggc_post_blocking register the current JIT stack, exactly while needed. Bounded stand-in: the scan of the stack.',
 'C19': 'Proved: ggc_pre_blocking, ggc_post_blocking (any number of blocked threads, any position in the lists), ggc_mutex_lock, ggc_barrier_wait, ggc_sem_wait, ggc_thread_join. Bounded stand-in: the collectors\' use of the lists.',
 'C20': 'Proved: ggc_thread_create, ggggcThreadWrapper, ggc_pre_blocking, ggc_post_blocking keep the count and the barrier equal to the number of running, unblocked threads; the argument is rooted until passed; ggggc_freeGeneration returns every pool exactly once. Bounded stand-in: whole-program runs.',
}
NA = {
 'C23': 'a property of all interleavings of several threads: the contracts in reach are sequential, they cannot state what other threads do between two of a thread\'s instructions',
 'C24': 'liveness over unbounded executions and schedules; contracts with loop variants would need a memory-consumption argument for the whole heap history and for other threads\' progress',
}
ASSUME = [
 'The verification-condition generator (dv/), clang 18 and opt -passes=mem2reg/always-inline as the semantics of C, and the SMT solvers are trusted.',
 'Memory is split into classes by access width and object/raw; code does not read with one width what it wrote with another, except through memset and memcpy.',
 'Functions are verified sequentially; at lock acquisition the shared state is replaced by any state satisfying the lock invariant; unlocked first reads see such a state.',
 'The object view of the heap used for mutator code (objects do not move in it, roots are tracked) is what the collector contracts preserve.',
 'Sizes: n * size does not overflow and objects fit a pool.',
]
def level(p): return 'proof' if p in PROOF else 'other'
def tech(p): return DV if p in PROOF else DV + '; ' + BC if p in PART else BC
def note(p):
    if p in PROOF: return PROOF[p]
    if p in PART: return PART[p]
    return 'Bounded stand-in only: the contracts\' postconditions are evaluated on seeded executions of the real code in several configurations.'
