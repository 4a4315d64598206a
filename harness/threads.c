/* Concrete contracts of blocking, thread start and exit (C19, C20), slot races
 * (C22) and the JIT pointer stack of other threads (C18).
 * args: seed steps section(all|block|create|slot)
 * Workers do what the main thread tells them, one command each at a time. */
#include "h.h"
#include <errno.h>
#include <sched.h>
#include <pthread.h>
extern struct GGGGC_PoolList *ggggc_blockedThreadPool0s;
extern struct GGGGC_PointerStackList *ggggc_blockedThreadPointerStacks;
#define MAXT 6
#define NRT 3
/* sharing objects between threads and then finishing is outside the contract
 * where finishing returns the pools with everything in them (known finding) */
#if defined(GGGGC_COLLECTOR_GEMBC) && GGGGC_GENERATIONS > 1
#define SHARE 1
#else
#define SHARE 0
#endif
GGC_TYPE(TNode)
    GGC_MPTR(TNode, next);
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(TNode, other);
    GGC_MDATA(ggc_size_t, oid);
GGC_END_TYPE(TNode, GGC_PTR(TNode, next) GGC_PTR(TNode, other))
enum { C_NONE, C_BUILD, C_CHECK, C_GC, C_BLOCK_MUTEX, C_BLOCK_SEM, C_BLOCK_BARRIER, C_BLOCK_JOIN, C_EXIT, C_SLOT, C_STORM, C_CREATE, C_DD, C_POSTMAIN, C_PREEXIT, C_GROW };
struct Chain { W base, len; };
static struct Wk {
    int used; volatile int cmd; volatile int blocked;
    ggc_thread_t th; W arg[4];
    /* its registered variables and what they must hold */
    TNode r[NRT]; struct Chain c[NRT]; W oid[NRT];
#ifdef GGGGC_FEATURE_JITPSTACK
    void *jit[24]; W jid; void **jcur;
#endif
    struct GGGGC_Pool *gen0; struct GGGGC_PointerStack *ps;
    W expArg; int err, ret;
    void *slotRes; W exits;
} wk[MAXT];
static W ids;
static ggc_mutex_t bm[MAXT]; static ggc_sem_t bs[MAXT]; static pthread_barrier_t bb; static volatile int finished[MAXT];
static volatile int stopStorm, goSlot;
static struct GGGGC_DescriptorSlot slot;
static struct GGGGC_Descriptor *dd; static W ddSize;
static volatile int failCreate;
#ifdef H_WRAP
extern int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { if (failCreate) return EAGAIN; return __real_pthread_create(t, a, f, x); }
#endif
struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size);
static __thread uint64_t trs = 1;
static uint64_t trnd(void) { trs ^= trs << 13; trs ^= trs >> 7; trs ^= trs << 17; return trs >> 8; }
static TNode chain(W base, W len) {
    TNode n = NULL, p = NULL; W i;
    GGC_PUSH_2(n, p);
    for (i = len; i > 0; i--) {
        W id = base + i - 1;
        n = GGC_NEW(TNode);
        GGC_WD(n, id, id);
        GGC_WP(n, next, p);
        p = n;
    }
    return p;
}
static void garbage(W n) { while (n--) { TNode t = GGC_NEW(TNode); t->id__data = (W) -1; } }
static void dogc(int k) {
    switch (k) { case 0: ggggc_collect0(0); break; case 1: ggggc_collect(); break; case 2: ggggc_collect0((unsigned char) (trnd() % GGGGC_GENERATIONS)); break; default: garbage(trnd() % 200); }
}
static void worker(GGC_ThreadArg arg);
static int spawn(struct Wk *w) {
    GGC_ThreadArg a = NULL; TNode n = NULL; int r; W v = ++ids;
    GGC_PUSH_2(a, n);
    memset((void *) w, 0, sizeof *w);
    w->used = 1; w->expArg = v; w->cmd = C_CHECK;   /* it acknowledges its start */
    a = GGC_NEW(GGC_ThreadArg);
    n = chain(v, 3); ids += 3;
    GGC_WP(a, parg, n);
    { void *wp = w; GGC_WD(a, darg, wp); }
    r = ggc_thread_create(&w->th, worker, a);
    if (r) w->used = 0;
    return r;
}

#define SPIN() do { GGC_YIELD(); sched_yield(); } while (0)
static void wcheck(struct Wk *w, const char *when) {
    int k;
    for (k = 0; k < NRT; k++) {
        TNode n = w->r[k]; W i;
        for (i = 0; i < w->c[k].len; i++) {
            CHECK(n && ((W) n & 7) == 0, "%s: thread %d lost variable %d at element %lu", when, (int) (w - wk), k, (unsigned long) i);
            CHECK(n->header.descriptor__ptr == TNode__descriptorSlot.descriptor && n->id__data == w->c[k].base + i, "%s: variable %d of thread %d: element %lu is not the object it was", when, k, (int) (w - wk), (unsigned long) i);
            if (i == 0 && w->oid[k]) CHECK(n->other__ptr && n->other__ptr->id__data == w->oid[k], "%s: reference to another thread's object lost", when);
            if (i == 0 && !w->oid[k]) CHECK(!n->other__ptr, "%s: null became something else", when);
            n = n->next__ptr;
        }
        CHECK(n == NULL, "%s: variable %d of thread %d does not end", when, k, (int) (w - wk));
    }
#if defined(GGGGC_FEATURE_JITPSTACK) && !defined(GGGGC_FEATURE_EXTTAG)
    if (w->jid) for (k = 0; k < 24; k++) {
        if (&w->jit[k] < w->jcur) CHECK(w->jit[k] == (void *) 0x1111, "%s: JIT word below the stack pointer changed", when);
        else if (k % 3 == 0) CHECK(w->jit[k] == NULL, "%s: null JIT pointer changed", when);
        else CHECK(w->jit[k] && ((TNode) w->jit[k])->id__data == w->jid, "%s: JIT pointer lost its object", when);
    }
#endif
}
static void run(struct Wk *w) {
    int me = (int) (w - wk);
    GGC_PUSH_3(w->r[0], w->r[1], w->r[2]);
    trs = 77 + me + ids*16;
    for (;;) {
        int c;
        while (!(c = w->cmd)) SPIN();
        switch (c) {
            case C_CHECK: wcheck(w, "check"); break;
            case C_BUILD: {
                int k = (int) w->arg[0]; TNode n;
                n = chain(w->arg[1], w->arg[2]);
                w->r[k] = n; w->c[k].base = w->arg[1]; w->c[k].len = w->arg[2]; w->oid[k] = 0;
#if defined(GGGGC_FEATURE_JITPSTACK) && !defined(GGGGC_FEATURE_EXTTAG)
                if (n) {
                    int j;
                    ggc_jitPointerStackEnd = &w->jit[24]; ggc_jitPointerStack = w->jcur = &w->jit[w->arg[1] % 24];
                    for (j = 0; j < 24; j++) w->jit[j] = &w->jit[j] < w->jcur ? (void *) 0x1111 : j % 3 == 0 ? NULL : (void *) n;
                    w->jid = w->arg[1];
                }
#endif
                garbage(w->arg[3]);
                break;
            }
            case C_GC: dogc((int) w->arg[0]); break;
            case C_BLOCK_MUTEX:
                w->gen0 = ggggc_gen0; w->ps = ggggc_pointerStack;
                errno = 0; w->ret = ggc_mutex_lock(&bm[me]); w->err = errno; ggc_mutex_unlock(&bm[me]); break;
            case C_BLOCK_SEM: w->gen0 = ggggc_gen0; w->ps = ggggc_pointerStack; w->ret = ggc_sem_wait(&bs[me]); break;
            case C_BLOCK_BARRIER: w->gen0 = ggggc_gen0; w->ps = ggggc_pointerStack; ggc_barrier_wait(&bb); w->ret = 0; break;
            case C_BLOCK_JOIN: w->gen0 = ggggc_gen0; w->ps = ggggc_pointerStack; w->ret = ggc_thread_join(wk[w->arg[0]].th); break;
            case C_STORM: w->cmd = C_NONE; while (!stopStorm) { dogc((int) (trnd() % 2)); SPIN(); if (trnd() % 3 == 0) garbage(20); } continue;
            case C_POSTMAIN: { int k = (int) w->arg[0]; while (k--) { dogc(k % 3); garbage(50); } ggc_sem_post(&bs[me]); break; }
            case C_SLOT: w->cmd = C_NONE; { int k = 0; while (!goSlot) if (++k > 3000) sched_yield(); } w->slotRes = ggggc_allocateDescriptorSlot(&slot); finished[me] = 1; continue;
            case C_DD: dd = ggggc_allocateDescriptorDescriptor(w->arg[0]); break;
            case C_GROW: { /* enough live data for more pools, then allocation moves on to the later ones */
                TNode n; W k;
                n = chain(w->arg[1], GGGGC_WORDS_PER_POOL/7);
                w->r[w->arg[0]] = n; w->c[w->arg[0]].base = w->arg[1]; w->c[w->arg[0]].len = GGGGC_WORDS_PER_POOL/7; w->oid[w->arg[0]] = 0;
                ggggc_collect0(0);
                wcheck(w, "growth");
                if (w->arg[2]) { n = NULL; w->r[w->arg[0]] = n; w->c[w->arg[0]].len = 0; }
                for (k = 0; k < GGGGC_WORDS_PER_POOL/4 && (!ggggc_gen0 || ggggc_pool0 == ggggc_gen0); k++) garbage(1);
                break;
            }
            case C_CREATE: w->ret = spawn(&wk[w->arg[0]]); break;
            case C_PREEXIT: {
                int k; w->ret = 0;
                for (k = 0; k < 3; k++) { w->r[k] = NULL; w->c[k].len = 0; w->oid[k] = 0; }
#if defined(GGGGC_FEATURE_JITPSTACK)
                w->jid = 0; ggc_jitPointerStack = ggc_jitPointerStackEnd;
#endif
#if SHARE
                for (k = 0; k < 20; k++) {
                    struct GGGGC_Pool *p;
                    ggggc_collect0(0);
                    for (p = ggggc_gen0; p && p->free == p->start; p = p->next);
                    if (!p) break;
                }
                if (k == 20) w->ret = 1;
                if (!w->ret) for (k = 0; k < (int) GGGGC_WORDS_PER_POOL/4 && ggggc_pool0 && ggggc_pool0->next; k++) garbage(1);
#endif
                break;
            }
            case C_EXIT: return;
        }
        w->gen0 = ggggc_gen0;
        w->cmd = C_NONE;
    }
}
static void worker(GGC_ThreadArg arg) {
    struct Wk *w; TNode an = NULL;
    GGC_PUSH_2(arg, an);
    w = (struct Wk *) arg->darg__data;
    h_what = "thread start";
    CHECK(w >= wk && w < wk + MAXT && w->used, "a started thread received another argument object");
    an = arg->parg__ptr;
    { W i; TNode n = an; for (i = 0; i < 3; i++) { CHECK(n && n->id__data == w->expArg + i, "a started thread's argument object is not what was passed"); n = n->next__ptr; } CHECK(!n, "a started thread's argument object is not what was passed"); }
    run(w);
}
static int stormOn;
static W nblocked(void) {
    W n = 0; struct GGGGC_PoolList *p;
    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0) GGC_YIELD();
    for (p = ggggc_blockedThreadPool0s; p; p = p->next) n++;
    ggc_mutex_unlock(&ggggc_worldBarrierLock);
    return n;
}
static void tell(int i, int c) { wk[i].cmd = c; }
static void await(int i) { while (wk[i].cmd) SPIN(); }
static void cmd(int i, int c) { tell(i, c); await(i); }
/* every pool ever seen */
#define NP 4096
static struct GGGGC_Pool *ever[NP]; static W nEver, maxUse;
static void audit(void) {
    W running = 1, blocked = 0, tc, n; int i, j;
    struct GGGGC_PoolList *pl; struct GGGGC_PointerStackList *psl;
    struct GGGGC_Pool *use[NP], *p; W nUse = 0;
    for (i = 0; i < MAXT; i++) if (wk[i].used) { if (wk[i].blocked) blocked++; else running++; }
    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0) GGC_YIELD();
    tc = ggggc_threadCount == (ggc_size_t) -1 ? 1 : ggggc_threadCount;
    CHECK(tc == running, "collections wait for %lu threads, but %lu are running", (unsigned long) tc, (unsigned long) running);
    for (n = 0, pl = ggggc_blockedThreadPool0s; pl; pl = pl->next) { n++; CHECK(n <= blocked, "more threads registered as blocked than are blocked"); }
    CHECK(n == blocked, "%lu threads registered as blocked, %lu are", (unsigned long) n, (unsigned long) blocked);
    for (n = 0, psl = ggggc_blockedThreadPointerStacks; psl; psl = psl->next) { n++; CHECK(n <= blocked, "more root registrations of blocked threads than blocked threads"); }
    CHECK(n == blocked, "%lu root registrations of blocked threads, %lu are blocked", (unsigned long) n, (unsigned long) blocked);
    for (i = 0; i < MAXT; i++) if (wk[i].used && wk[i].blocked) {
        for (n = 0, pl = ggggc_blockedThreadPool0s; pl; pl = pl->next) n += pl->pool == wk[i].gen0;
        for (j = 0; j < MAXT; j++) if (j != i && wk[j].used && wk[j].blocked && wk[j].gen0 == wk[i].gen0) n--;
        CHECK(n == 1, "a blocked thread's pools are registered %lu times", (unsigned long) n);
        for (n = 0, psl = ggggc_blockedThreadPointerStacks; psl; psl = psl->next) n += psl->pointerStack == wk[i].ps;
        CHECK(n == 1, "a blocked thread's roots are registered %lu times", (unsigned long) n);
    }
    ggc_mutex_unlock(&ggggc_worldBarrierLock);
    for (i = 0; i < MAXT; i++) if (wk[i].used) wcheck(&wk[i], "audit");
    for (p = ggggc_gen0; p; p = p->next) { CHECK(nUse < NP, "pool lists do not end"); use[nUse++] = p; }
    for (i = 0; i < MAXT; i++) if (wk[i].used) for (p = wk[i].gen0; p; p = p->next) { CHECK(nUse < NP, "pool lists do not end"); use[nUse++] = p; }
    for (i = 1; i < GGGGC_GENERATIONS; i++) for (p = ggggc_gens[i]; p; p = p->next) { CHECK(nUse < NP, "pool lists do not end"); use[nUse++] = p; }
    for (i = 0; i < (int) nUse; i++) {
        for (j = 0; j < i; j++) CHECK(use[i] != use[j], "one memory pool belongs to two owners");
        for (j = 0; j < (int) nEver && ever[j] != use[i]; j++);
        if (j == (int) nEver && nEver < NP) ever[nEver++] = use[i];
    }
    if (nUse > maxUse) maxUse = nUse;
    CHECK(nEver <= maxUse + 6, "%lu memory pools were made although only %lu were ever in use: those of finished threads are not used again", (unsigned long) nEver, (unsigned long) maxUse);
}
static int pick(int blocked) {
    int c[MAXT], n = 0, i;
    for (i = 0; i < MAXT; i++) if (wk[i].used && (blocked < 0 || wk[i].blocked == blocked)) c[n++] = i;
    return n ? c[below(n)] : -1;
}
static int freeSlot(void) { int i; for (i = 0; i < MAXT; i++) if (!wk[i].used) return i; return -1; }
static int joiner[MAXT]; /* who waits for whom */
static int blockKind[MAXT];
static void block(int i) {
    W was = nblocked(); int k = below(2) ? C_BLOCK_MUTEX : C_BLOCK_SEM;
    h_what = "block";
    blockKind[i] = k;
    if (k == C_BLOCK_MUTEX) ggc_mutex_lock_raw(&bm[i]);
    wk[i].ret = -77;
    tell(i, k);
    while (nblocked() != was + 1) SPIN();
    wk[i].blocked = 1;
}
static void unblock(int i) {
    h_what = "unblock";
    if (blockKind[i] == C_BLOCK_MUTEX) ggc_mutex_unlock(&bm[i]); else ggc_sem_post(&bs[i]);
    await(i);
    wk[i].blocked = 0;
    CHECK(wk[i].ret == 0, "blocking operation failed");
}
static void build(int i) { wk[i].arg[0] = below(NRT); wk[i].arg[1] = ids + 1; wk[i].arg[2] = below(12) + 1; wk[i].arg[3] = below(100); ids += wk[i].arg[2]; 
    { int k; W j; /* nobody else's model refers to what is dropped: references keep it alive anyway */ (void) k; (void) j; }
    cmd(i, C_BUILD); }
static void grow(int i) { wk[i].arg[0] = below(NRT); wk[i].arg[1] = ids + 1; wk[i].arg[2] = below(2); ids += GGGGC_WORDS_PER_POOL; h_what = "growth"; cmd(i, C_GROW); }
static TNode mroot[NRT]; static struct Chain mc[NRT];
static void mcheck(void) {
    int k;
    for (k = 0; k < NRT; k++) { TNode n = mroot[k]; W i; for (i = 0; i < mc[k].len; i++) { CHECK(n && n->id__data == mc[k].base + i, "the main thread's variable %d lost its object", k); n = n->next__ptr; } CHECK(!n, "the main thread's variable %d does not end", k); }
}
static int finish(int i) {
    struct Wk *w = &wk[i];
    h_what = "thread exit";
    cmd(i, C_PREEXIT);
    if (w->ret) return 0;
    audit();
    tell(i, C_EXIT);
    return 1;
}
int main(int argc, char **argv) {
    const char *sec = argc > 3 ? argv[3] : "all";
    unsigned long steps = argc > 2 ? strtoul(argv[2], 0, 10) : 200; int i;
    int jit = !strcmp(sec, "slot");
    h_seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1);
    trs = h_rs | 1;
    for (i = 0; i < MAXT; i++) { pthread_mutex_init(&bm[i], NULL); sem_init(&bs[i], 0, 0); joiner[i] = -1; }
    GGC_PUSH_3(mroot[0], mroot[1], mroot[2]);
    if (jit) {
        /* many threads ask for the same type at once */
        for (i = 0; i < MAXT; i++) { CHECK(spawn(&wk[i]) == 0, "thread not created"); await(i); }
        for (h_step = 0; h_step < steps; h_step++) {
            struct GGGGC_DescriptorSlot z = { GGC_MUTEX_INITIALIZER, NULL, 2 + below(60), 1 };
            h_what = "descriptor slot";
            slot = z; goSlot = 0;
            for (i = 0; i < MAXT; i++) { finished[i] = 0; cmd(i, C_SLOT); }
            goSlot = 1;
            for (i = 0; i < MAXT; i++) while (!finished[i]) SPIN();
            for (i = 0; i < MAXT; i++) CHECK(wk[i].slotRes == wk[0].slotRes, "descriptor of one type differs between threads");
            CHECK(slot.descriptor == wk[0].slotRes, "descriptor slot does not hold what it returned");
        }
        printf("ok threads slot\n");
        return 0;
    }
    for (h_step = 0; h_step < steps; h_step++) {
        int w;
        switch (below(16)) {
            case 0: case 1: {
                if ((i = freeSlot()) < 0) break;
                h_what = "thread start";
                w = SHARE && below(3) == 0 ? pick(0) : -1;
                if (w >= 0) { wk[w].arg[0] = i; cmd(w, C_CREATE); CHECK(wk[w].ret == 0, "thread not created"); }
                else CHECK(spawn(&wk[i]) == 0, "thread not created");
                await(i);
                break;
            }
#ifdef H_WRAP
            case 2: {
                if ((i = freeSlot()) < 0) break;
                h_what = "failing thread start";
                failCreate = 1; errno = 0;
                CHECK(spawn(&wk[i]) != 0, "thread creation reported success although there is no thread");
                failCreate = 0;
                break;
            }
#endif
            case 3: case 4: if ((w = pick(0)) >= 0 && below(6) == 0) grow(w); else if (w >= 0) { h_what = "build"; build(w); } break;
            case 5: case 6: if ((w = pick(0)) >= 0 && below(3)) { h_what = "collection by a worker"; wk[w].arg[0] = below(4); cmd(w, C_GC); } else { h_what = "collection by the main thread"; dogc((int) below(4)); } break;
            case 7: case 8: if ((w = pick(0)) >= 0) block(w); break;
            case 9: case 10: if ((w = pick(1)) >= 0) unblock(w); break;
            case 11: {
                int j;
                if ((w = pick(0)) < 0) break;
                if (below(3) == 0) grow(w);
                if (!finish(w)) break;
                /* wait for its end: this blocks the main thread */
                CHECK(ggc_thread_join(wk[w].th) == 0, "join failed");
                wk[w].used = 0;
                for (j = 0; j < MAXT; j++) if (joiner[j] == w) joiner[j] = -1;
                break;
            }
            case 12: { /* cross references */
                int j, k = below(NRT), l = below(NRT); TNode a, b;
                if (!SHARE) break;
                if ((w = pick(-1)) < 0 || (j = pick(-1)) < 0) break;
                a = wk[w].r[k]; b = wk[j].r[l];
                if (!a || !b) break;
                h_what = "cross reference";
                GGC_WP(a, other, b);
                wk[w].oid[k] = wk[j].c[l].base;
                for (i = 0; i < MAXT; i++) for (l = 0; l < NRT; l++) if (wk[i].used && wk[i].r[l] == a) wk[i].oid[l] = wk[w].oid[k];
                break;
            }
            case 13: { /* the main thread's own */
                int k = below(NRT); W len = below(10) + 1;
                h_what = "main thread";
                mc[k].len = 0; mroot[k] = NULL;
                mroot[k] = chain(ids + 1, len); mc[k].base = ids + 1; mc[k].len = len; ids += len;
                break;
            }
            case 14: { /* the main thread blocks while a worker collects */
                if ((w = pick(0)) < 0) break;
                h_what = "main thread blocked";
                wk[w].arg[0] = below(4) + 1;
                tell(w, C_POSTMAIN);
                CHECK(ggc_sem_wait(&bs[w]) == 0, "sem_wait failed");
                await(w);
                break;
            }
            default: { /* threads start while another collects all the time */
                int n = (int) below(3) + 1, st[MAXT], ns = 0;
                if ((w = pick(0)) < 0) break;
                h_what = "thread start during collections";
                stopStorm = 0; tell(w, C_STORM); while (wk[w].cmd) SPIN();
                while (n-- && (i = freeSlot()) >= 0) { CHECK(spawn(&wk[i]) == 0, "thread not created"); st[ns++] = i; }
                if (SHARE) {
                    W z = 3 + below(GGGGC_WORDS_PER_POOL/64);
                    struct GGGGC_Descriptor *d = ggggc_allocateDescriptorDescriptor(z);
                    CHECK(d == ggggc_descriptorDescriptors[z] && d->size == z, "descriptor type returned is not the shared one (%p, %p, size %lu, %lu wanted)", (void *) d, (void *) ggggc_descriptorDescriptors[z], (unsigned long) d->size, (unsigned long) z);
                }
                for (i = 0; i < ns; i++) await(st[i]);
                stopStorm = 1;
                while (ns && below(3) == 0) { ns--; }
                wk[w].arg[0] = 3; cmd(w, C_CHECK);
                break;
            }
        }
        mcheck();
        audit();
    }
    /* everybody finishes */
    for (i = 0; i < MAXT; i++) if (wk[i].used && wk[i].blocked) unblock(i);
    for (i = 0; i < MAXT; i++) if (wk[i].used) { if (finish(i)) { ggc_thread_join(wk[i].th); wk[i].used = 0; } }
    for (i = 0; i < 3; i++) { dogc(i); mcheck(); }
    audit();
    printf("ok threads %lu ids, %lu pools\n", (unsigned long) ids, (unsigned long) nEver);
    return 0;
}
