/* Model-based exploration of the heap contracts: every operation is mirrored
 * in a model graph; after each collection the heap reachable from the roots
 * must be isomorphic to the model's, allocation must be fresh, and after full
 * collections exactly the reachable words may remain in use. */
#include "h.h"

#define NR 24           /* root slots */
#define NT 14
#define MAXF 4

enum { KNULL, KREF, KDATA, KTAG };
struct Slot { unsigned char k; W v; };
struct Node { W size; int type; W desc; /* node id of descriptor */ struct Slot *s; int isdesc; int mark; unsigned fin; W revived; };
static struct Node *N; static W nN, capN;
struct Ty { W size; unsigned char *ptr; unsigned char *tags; int kind; };  /* kind 0: layout, 1: DA-style no pointers */
static struct Ty T[NT];
static void *R[NR]; static struct Slot MR[NR];
static void *DR[NT]; static W MD[NT];    /* rooted type descriptors */
#ifdef GGGGC_FEATURE_JITPSTACK
#define JN 96
static void *J[JN]; static struct Slot MJ[JN]; static unsigned char JP[JN]; /* JP: 0 data/tag word, 1 pointer */
static W jcur = JN;
static void *JX[JN]; /* expected contents of non-pointer words */
#endif
static int forceTiny;
static W liveLimit = 900;
static unsigned finRuns, finPending;
static int inFin;

static W newnode(W size, int type, W desc) {
    if (nN == capN) { capN = capN ? capN*2 : 1024; N = (struct Node *) realloc(N, capN*sizeof *N); }
    memset(&N[nN], 0, sizeof *N);
    N[nN].size = size; N[nN].type = type; N[nN].desc = desc;
    N[nN].s = (struct Slot *) calloc(size ? size : 1, sizeof(struct Slot));
    return nN++;
}
/* model node slots: index by word; descriptors: slot[0] = user pointer only */

/* ------------------------------------------------------------ reachability in the model */
static W *stk; static W stkn, stkcap;
static void push(W n) { if (!N[n].mark) { N[n].mark = 1; if (stkn == stkcap) { stkcap = stkcap ? stkcap*2 : 1024; stk = (W *) realloc(stk, stkcap*sizeof(W)); } stk[stkn++] = n; } }
static void drain(void) {
    while (stkn) {
        W n = stk[--stkn], i;
        if (!N[n].isdesc) push(N[n].desc);
        if (N[n].isdesc) { if (N[n].s[0].k == KREF) push(N[n].s[0].v); }
        else for (i = 0; i < N[n].size; i++) if (N[n].s[i].k == KREF) push(N[n].s[i].v);
    }
}
static void modelmark(void) {
    W i;
    for (i = 0; i < nN; i++) N[i].mark = 0;
    for (i = 0; i < NR; i++) if (MR[i].k == KREF) push(MR[i].v);
    for (i = 0; i < NT; i++) if (DR[i]) push(MD[i]);
#ifdef GGGGC_FEATURE_JITPSTACK
    for (i = jcur; i < JN; i++) if (JP[i] && MJ[i].k == KREF) push(MJ[i].v);
#endif
    drain();
}

/* ------------------------------------------------------------ isomorphism */
static void **real; static W realcap;
static struct hmap a2n;
static W *pq; static W pqn, pqcap;
static void pair(W n, void *p, const char *where, W wi) {
    W *e;
    CHECK(p != NULL, "%s[%lu]: a reference became null", where, (unsigned long) wi);
    CHECK(((W) p & 7) == 0, "%s[%lu]: misaligned reference %p", where, (unsigned long) wi, p);
    if (real[n]) { CHECK(real[n] == p, "%s[%lu]: one object has two copies (%p and %p)", where, (unsigned long) wi, real[n], p); return; }
    CHECK(h_poolof(p, NULL), "%s[%lu]: reference %p outside every memory pool", where, (unsigned long) wi, p);
    e = hm_at(&a2n, p, 1);
    CHECK(*e == 0, "%s[%lu]: two objects share the address %p", where, (unsigned long) wi, p);
    *e = n + 1;
    real[n] = p;
    if (pqn == pqcap) { pqcap = pqcap ? pqcap*2 : 1024; pq = (W *) realloc(pq, pqcap*sizeof(W)); }
    pq[pqn++] = n;
}
static void checkdesc(W n, struct GGGGC_Descriptor *d) {
    W i;
    struct Node *m = &N[n];
    struct Ty *t = &T[m->type < NT ? m->type : 0];
    CHECK(d->size == m->size, "descriptor reports size %lu, not %lu", (unsigned long) d->size, (unsigned long) m->size);
    (void) t; (void) i;
}
static unsigned char *layout_of(W n, W *szo);
static void pairs(void) {
    while (pqn) {
        W n = pq[--pqn], i;
        void *p = real[n];
        struct Node *m = &N[n];
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
        CHECK(((struct GGGGC_Header *) p)->ggggc_memoryCorruptionCheck == GGGGC_MEMORY_CORRUPTION_VAL, "canary destroyed");
#endif
        if (m->isdesc) {
            struct GGGGC_Descriptor *d = (struct GGGGC_Descriptor *) p, *dd = d->header.descriptor__ptr;
            W sz; unsigned char *lay = layout_of(n, &sz);
            checkdesc(n, d);
            for (i = 0; i < m->size; i++)
                CHECK(!!d_isptr(d, i) == (i == 0 ? 1 : lay ? lay[i] : 0), "descriptor of size %lu: word %lu wrongly %s pointer", (unsigned long) m->size, (unsigned long) i, d_isptr(d, i) ? "a" : "no");
            CHECK(((W) dd & 7) == 0 && h_poolof(dd, NULL), "descriptor's own type is not an object");
            CHECK(ggggc_descriptorDescriptors[dd->size] == dd, "descriptor type is not the shared one of its size");
            { struct GGGGC_Descriptor *ddd = dd; int k; for (k = 0; k < 5; k++) {
                CHECK(((W) ddd & 7) == 0 && h_poolof(ddd, NULL) && ddd->size >= 3 && ddd->size < (1u << 22), "broken descriptor type");
                CHECK(ggggc_descriptorDescriptors[ddd->size] == ddd, "descriptor type is not the shared one of its size (level %d)", k);
                for (i = 0; i < ddd->size && i < 64; i++)
                    CHECK(!!d_isptr(ddd, i) == (i == 0 || i == offsetof(struct GGGGC_Descriptor, user__ptr)/sizeof(W)), "descriptor type: word %lu", (unsigned long) i);
                ddd = ddd->header.descriptor__ptr;
            } }
            if (m->s[0].k == KREF) pair(m->s[0].v, d->user__ptr, "user pointer", 0);
            else if (m->s[0].k == KTAG) CHECK(d->user__ptr == (void *) m->s[0].v, "tagged user pointer changed");
            else CHECK(d->user__ptr == NULL, "user pointer appeared");
            continue;
        }
        pair(m->desc, hdr_desc(p), "descriptor of object", 0);
        for (i = HW; i < m->size; i++) {
            W v = RAW(p, i);
            switch (m->s[i].k) {
                case KNULL: CHECK(v == 0, "null pointer word %lu of an object of %lu words became %lx", (unsigned long) i, (unsigned long) m->size, (unsigned long) v); break;
                case KREF: pair(m->s[i].v, (void *) v, "object word", i); break;
                case KTAG: CHECK(v == m->s[i].v, "tagged word %lu changed: %lx -> %lx", (unsigned long) i, (unsigned long) m->s[i].v, (unsigned long) v); break;
                default: CHECK(v == m->s[i].v, "data word %lu of an object of %lu words changed: %lx -> %lx", (unsigned long) i, (unsigned long) m->size, (unsigned long) m->s[i].v, (unsigned long) v);
            }
        }
    }
}
static void isobegin(void) {
    if (realcap < nN) { realcap = nN*2; real = (void **) realloc(real, realcap*sizeof(void *)); }
    memset(real, 0, nN*sizeof(void *));
    hm_init(&a2n, 1024);
    pqn = 0;
}
static void slotcheck(struct Slot *s, void *v, const char *where, W i) {
    if (s->k == KREF) pair(s->v, v, where, i);
    else if (s->k == KTAG || s->k == KDATA) CHECK((W) v == s->v, "%s[%lu]: non-pointer value %lx changed to %p", where, (unsigned long) i, (unsigned long) s->v, v);
    else CHECK(v == NULL, "%s[%lu]: null became %p", where, (unsigned long) i, v);
}
static void audit(int quiescent);
static void verify(void) {
    W i;
    isobegin();
    for (i = 0; i < NR; i++) slotcheck(&MR[i], R[i], "root", i);
    for (i = 0; i < NT; i++) if (DR[i]) pair(MD[i], DR[i], "type root", i);
#ifdef GGGGC_FEATURE_JITPSTACK
    for (i = jcur; i < JN; i++) {
        if (JP[i]) slotcheck(&MJ[i], J[i], "JIT slot", i);
        else CHECK(J[i] == JX[i], "non-pointer JIT word %lu changed", (unsigned long) i);
    }
    for (i = 0; i < jcur; i++) CHECK(J[i] == JX[i], "word %lu below the JIT stack pointer changed", (unsigned long) i);
#endif
    pairs();
    hm_free(&a2n);
    audit(1);
}

/* drop unreachable nodes from the model, renumbering */
static void compactmodel(void) {
    W i, n = 0;
    W *map;
    modelmark();
    /* nodes with a pending finalizer stay known */
    for (i = 0; i < nN; i++) if (N[i].fin) push(i);
    drain();
    map = (W *) malloc(sizeof(W)*nN);
    for (i = 0; i < nN; i++) { if (N[i].mark) map[i] = n++; else free(N[i].s); }
    n = 0;
    for (i = 0; i < nN; i++) if (N[i].mark) {
        struct Node m = N[i]; W j;
        if (!m.isdesc) m.desc = map[m.desc];
        for (j = 0; j < (m.isdesc ? 1 : m.size); j++) if (m.s[j].k == KREF) m.s[j].v = map[m.s[j].v];
        N[n++] = m;
    }
    nN = n;
    for (i = 0; i < NR; i++) if (MR[i].k == KREF) MR[i].v = map[MR[i].v];
    for (i = 0; i < NT; i++) if (DR[i]) MD[i] = map[MD[i]];
#ifdef GGGGC_FEATURE_JITPSTACK
    for (i = jcur; i < JN; i++) if (JP[i] && MJ[i].k == KREF) MJ[i].v = map[MJ[i].v];
#endif
    free(map);
}

/* ------------------------------------------------------------ the heap, walked independently */
static struct hmap seen; static void **wq; static W wqn, wqcap; static W words;
static void wpush(void *p) {
    W *e;
    if (!p || istag(p)) return;
    CHECK(((W) p & 7) == 0, "misaligned reference %p in the heap", p);
    e = hm_at(&seen, p, 1);
    if (*e) return;
    *e = 1;
    if (wqn == wqcap) { wqcap = wqcap ? wqcap*2 : 1024; wq = (void **) realloc(wq, wqcap*sizeof(void *)); }
    wq[wqn++] = p;
}
static void wdrain(void) {
    while (wqn) {
        void *p = wq[--wqn];
        struct GGGGC_Descriptor *d = (struct GGGGC_Descriptor *) hdr_desc(p);
        W i;
        struct GGGGC_Pool *q = h_poolof(p, NULL);
        CHECK(q, "live object %p outside every pool", p);
        CHECK(((W) d & 7) == 0 && h_poolof(d, NULL), "object %p has a broken descriptor %p", p, (void *) d);
#ifdef GGGGC_COLLECTOR_GEMBC
        CHECK((W *) p + d->size <= q->free, "live object %p of %lu words reaches beyond the used part of its pool", p, (unsigned long) d->size);
#else
        CHECK((W *) p + d->size <= q->end, "live object %p reaches beyond its pool", p);
#endif
        words += d->size;
        wpush(d);
        for (i = 1; i < d->size; i++) if (d_isptr(d, i)) wpush((void *) RAW(p, i));
    }
}
static W walk(int withfin) {
    struct GGGGC_PointerStack *ps; W i; int g; struct GGGGC_Pool *q;
    hm_init(&seen, 4096); wqn = 0; words = 0;
    for (ps = ggggc_pointerStack; ps; ps = ps->next)
        for (i = 0; i < ps->size; i++) wpush(*(void **) ps->pointers[i]);
#ifdef GGGGC_FEATURE_JITPSTACK
    for (i = jcur; i < JN; i++) if (JP[i]) wpush(J[i]);
#endif
    (void) g; (void) q;
#ifdef GGGGC_FEATURE_FINALIZERS
    if (withfin)
    for (g = 0; g < GGGGC_GENERATIONS; g++) for (q = h_first(g); q; q = q->next) wpush(q->finalizers);
#else
    (void) withfin;
#endif
    wdrain();
    return words;
}
static W used(void) {
    W u = 0; int g; struct GGGGC_Pool *q;
    for (g = 0; g < GGGGC_GENERATIONS; g++) for (q = h_first(g); q; q = q->next) u += q->free - q->start;
    return u;
}

#ifdef GGGGC_COLLECTOR_GEMBC
static void audit(int quiescent) {
    int g; struct GGGGC_Pool *q; W i;
    int poolsn = 0; struct hmap pm;
    (void) quiescent;
    hm_init(&pm, 256);
    for (g = 0; g < GGGGC_GENERATIONS; g++) for (q = h_first(g); q; q = q->next) {
        W *p; long first = -1;
        W *e = hm_at(&pm, q, 1);
        CHECK(!*e, "a pool is in two generations"); *e = 1;
        CHECK(++poolsn < 4000, "pool lists do not end");
        CHECK(((W) q & (GGGGC_POOL_BYTES - 1)) == 0, "pool not aligned");
        CHECK((unsigned char *) q->end == (unsigned char *) q + GGGGC_POOL_BYTES, "pool end");
        CHECK(q->free >= q->start && q->free <= q->end, "pool free pointer");
#if GGGGC_GENERATIONS > 1
        CHECK(q->gen == g, "pool of generation %d is labelled %d", g, q->gen);
#endif
        for (p = q->start; p < q->free;) {
            struct GGGGC_Descriptor *d = (struct GGGGC_Descriptor *) (((W *) p)[0]);
            CHECK(((W) d & 3) == 0 && d, "object %p in generation %d with descriptor word %p", (void *) p, g, (void *) d);
            if (g > 0) { /* in older generations every object still has a readable descriptor only if it is live; parse only when fully live */ }
            {
                int dg; struct GGGGC_Pool *dp = h_poolof(d, &dg);
                CHECK(dp, "object %p: descriptor outside the pools", (void *) p);
                if (dg < g || (W *) d >= dp->free) break; /* a dead object whose descriptor is gone: cannot be walked */
            }
            CHECK(d->size >= 3 && p + d->size <= q->free, "object %p of generation %d: size %lu", (void *) p, g, (unsigned long) d->size);
#if GGGGC_GENERATIONS > 1
            if (g > 0) {
                long c = (long) GGGGC_CARD_OF(p);
                if (c != first) {
                    first = c;
                    CHECK((W *) ((unsigned char *) q + c*GGGGC_CARD_BYTES) + q->firstObject[c] == p, "first object of card %ld is not the one recorded", c);
                }
            }
#endif
            p += d->size;
        }
#if GGGGC_GENERATIONS > 1
        if (g > 0 && p == q->free && q->free > q->start) {
            if (q->free < q->end) CHECK(*q->free == 0, "no end mark after the last object of a pool of generation %d", g);
            if (q->free < q->end && (long) GGGGC_CARD_OF(q->free) != first)
                CHECK((W *) ((unsigned char *) q + GGGGC_CARD_OF(q->free)*GGGGC_CARD_BYTES) + q->firstObject[GGGGC_CARD_OF(q->free)] == q->free, "first object of the card of the free space");
        }
#endif
    }
    hm_free(&pm);
    walk(0);
#if GGGGC_GENERATIONS > 1
    /* pointers from live old objects to younger ones are remembered */
    for (i = 0; i < seen.cap; i++) if (seen.k[i]) {
        void *p = seen.k[i];
        struct GGGGC_Descriptor *d = (struct GGGGC_Descriptor *) hdr_desc(p);
        W j;
        int pg = 0, tg = 0; q = h_poolof(p, &pg);
        if (!pg) continue;
        for (j = 0; j < d->size; j++) if (d_isptr(d, j)) {
            void *t = (void *) RAW(p, j);
            if (!t || istag(t)) continue;
            h_poolof(t, &tg);
            if (tg < pg) CHECK(q->remember[GGGGC_CARD_OF(p)], "pointer from generation %d to %d is not remembered", pg, tg);
        }
    }
#endif
    hm_free(&seen);
}
#else
struct FLN { W zero, size; struct FLN *next; };
static void audit(int quiescent) {
    struct GGGGC_Pool *q; W nfree = 0; int nb = 0;
    struct hmap starts;
    W i;
    (void) quiescent;
    hm_init(&starts, 4096);
    for (q = h_first(0); q; q = q->next) {
        W *p = q->start;
        CHECK((unsigned char *) q->end == (unsigned char *) q + GGGGC_POOL_BYTES, "pool end");
        while (p < q->end) {
            if (p[0] == 0) { /* free block */
                CHECK(p[1] >= 3 && p + p[1] <= q->end, "free block %p of %lu words", (void *) p, (unsigned long) p[1]);
                *hm_at(&starts, p, 1) = 2;
                nfree += p[1]; nb++;
                p += p[1];
            } else {
                struct GGGGC_Descriptor *d = (struct GGGGC_Descriptor *) p[0];
                CHECK(((W) d & 7) == 0, "mark left behind on %p (%p)", (void *) p, (void *) d);
                CHECK(h_poolof(d, NULL), "descriptor outside the pools");
                CHECK(d->size >= 3 && p + d->size <= q->end, "object %p: size %lu", (void *) p, (unsigned long) d->size);
                *hm_at(&starts, p, 1) = 1;
                p += d->size;
            }
        }
        CHECK(p == q->end, "walking a pool does not end at its end");
    }
    walk(0);
    for (i = 0; i < seen.cap; i++) if (seen.k[i]) {
        W *e = hm_at(&starts, seen.k[i], 0);
        CHECK(e && *e == 1, "live object %p is not met by walking its pool", seen.k[i]);
    }
    hm_free(&seen);
    hm_free(&starts);
}
static W freewords(int *adjacent) {
    struct GGGGC_Pool *q; W nfree = 0;
    for (q = h_first(0); q; q = q->next) {
        W *p = q->start; int lastfree = 0;
        while (p < q->end) {
            if (p[0] == 0) { if (lastfree) *adjacent = 1; lastfree = 1; nfree += p[1]; p += p[1]; }
            else { lastfree = 0; p += ((struct GGGGC_Descriptor *) p[0])->size; }
        }
    }
    return nfree;
}
static W totalwords(void) { W u = 0; struct GGGGC_Pool *q; for (q = h_first(0); q; q = q->next) u += q->end - q->start; return u; }
#endif

/* ------------------------------------------------------------ types */
static unsigned char *arrlay; 
static unsigned char *layout_of(W n, W *szo) {
    int t = N[n].type;
    *szo = N[n].size;
    if (t >= 0 && t < NT) return T[t].kind == 1 ? NULL : T[t].ptr;
    if (t == NT) { /* pointer array */
        W i;
        if (!arrlay) { arrlay = (unsigned char *) malloc(1 << 16); }
        for (i = 0; i < N[n].size && i < (1 << 16); i++) arrlay[i] = i > HW;
        return arrlay;
    }
    return NULL;
}
static void mkty(int t, W size, const char *spec) {
    W i, want;
    struct Ty *y = &T[t];
    y->size = size < 3 ? 3 : size;
    y->ptr = (unsigned char *) calloc(y->size + 8, 1);
    y->tags = (unsigned char *) calloc(y->size + 8, 1);
    want = 0;
    for (i = HW; i < size; i++) {
        if (spec[0] == 'r') y->ptr[i] = below(3) == 0;
        else if (spec[0] == 'P') y->ptr[i] = 1;
        else if (spec[0] == 'e') y->ptr[i] = (i % 64 == 31 || i % 64 == 32 || i % 64 == 63 || i % 64 == 0 || i + 1 == size);
        else y->ptr[i] = spec[want % strlen(spec)] == 'p';
        want++;
    }
    y->ptr[0] = 1;
    for (i = 0; i < y->size; i++) y->tags[i] = (unsigned char) (below(120)*2 + (y->ptr[i] ? 0 : 1));
}
static void mktypes(void) {
    mkty(0, HW + 2, "pd"); mkty(1, HW + 1, "p"); mkty(2, HW + 1, "d"); mkty(3, HW + 6, "pdppdp");
    mkty(4, 40, "e"); mkty(5, 70, "e"); mkty(6, 130, "r"); mkty(7, HW + 8, "d"); mkty(8, HW + 4, "d"); T[8].kind = 1;
    mkty(9, 128, "e"); mkty(10, HW + 3, "pp"); mkty(11, 64, "e"); mkty(12, HW + 3, "ppd"); mkty(13, 65, "P");
}
static void *mkdesc(int t) {
    struct Ty *y = &T[t];
    W i;
    if (y->kind == 1) return ggggc_allocateDescriptorDA(y->size);
#ifdef GGGGC_FEATURE_EXTTAG
    if (t & 1) {
        unsigned char *tg = (unsigned char *) malloc(y->size);
        void *r;
        memcpy(tg, y->tags, y->size);
        tg[0] = (unsigned char) rnd();
        r = ggggc_allocateDescriptorT(y->size, tg);
        for (i = 1; i < y->size; i++) CHECK(((struct GGGGC_Descriptor *) r)->tags[i] == tg[i], "tag %lu not stored", (unsigned long) i);
        CHECK(((struct GGGGC_Descriptor *) r)->tags[0] == 0, "header tag");
        free(tg);
        return r;
    }
#endif
    if (y->size <= 64 && (rnd() & 1)) {
        W m = 0;
        for (i = rnd() & 1; i < y->size; i++) if (y->ptr[i]) m |= (W) 1 << i;
        if (y->size < 64 && (rnd() & 1) && 0) m |= (W) -1 << y->size;
        return ggggc_allocateDescriptor(y->size, m);
    } else {
        W nw = (y->size + 63)/64, *m = (W *) calloc(nw, sizeof(W));
        void *r;
        for (i = rnd() & 1; i < y->size; i++) if (y->ptr[i]) m[i/64] |= (W) 1 << (i % 64);
        r = ggggc_allocateDescriptorL(y->size, m);
        free(m);
        return r;
    }
}
static void needtype(int t) {
    W n;
    if (DR[t]) return;
    DR[t] = mkdesc(t);
    n = newnode(T[t].size, t, 0);
    N[n].isdesc = 1;
    MD[t] = n;
}

/* ------------------------------------------------------------ operations */
static void fresh(void *p, W size) {
    W i; struct GGGGC_Pool *q; int g;
    CHECK(p && ((W) p & 7) == 0, "allocation returned %p", p);
    q = h_poolof(p, &g);
    CHECK(q && g == 0, "allocation outside the thread's young pools");
    CHECK((W *) p + size <= q->end, "object of %lu words does not fit into its pool", (unsigned long) size);
#ifdef GGGGC_COLLECTOR_GEMBC
    CHECK((W *) p + size <= q->free, "allocated object is not below the free pointer");
#endif
    (void) i;
}
static W val(void) {
    switch (below(5)) {
        case 0: return rnd();
        case 1: return (W) R[below(NR)];
        case 2: { void *p = R[below(NR)]; return (p && !istag(p)) ? (W) p + 8*below(3) : 7; }
        case 3: { struct GGGGC_Pool *q = h_first((int) below(GGGGC_GENERATIONS)); return q ? (W) (q->start + below(q->end - q->start)) : 1; }
        default: return below(3) - 1;
    }
}
static void initdata(W n, void *p) {
    W i;
    for (i = HW; i < N[n].size; i++) if (N[n].s[i].k == KDATA) { W v = val(); RAW(p, i) = v; N[n].s[i].v = v; }
}
static void setupnode(W n, unsigned char *lay, void *p, int array) {
    W i;
    for (i = HW; i < N[n].size; i++) {
        if (lay && lay[i]) { N[n].s[i].k = KNULL; CHECK(RAW(p, i) == 0, "new object of %lu words: pointer word %lu is %lx", (unsigned long) N[n].size, (unsigned long) i, (unsigned long) RAW(p, i)); }
        else { N[n].s[i].k = KDATA; if (array && i == HW) N[n].s[i].v = RAW(p, i); else { N[n].s[i].v = 0; CHECK(RAW(p, i) == 0, "new object of %lu words: data word %lu is %lx", (unsigned long) N[n].size, (unsigned long) i, (unsigned long) RAW(p, i)); } }
    }
}
static void setroot(W r, W n, void *p) { R[r] = p; MR[r].k = KREF; MR[r].v = n; }
static W op_alloc(int t) {
    W n, r = below(NR); void *p;
    h_what = "alloc";
    needtype(t);
    p = ggggc_malloc((struct GGGGC_Descriptor *) DR[t]);
    fresh(p, T[t].size);
    CHECK(hdr_desc(p) == DR[t], "new object has a different type");
    n = newnode(T[t].size, t, MD[t]);
    setupnode(n, T[t].kind == 1 ? NULL : T[t].ptr, p, 0);
    initdata(n, p);
    setroot(r, n, p);
    return r;
}
static void adopt(W n, void *p, int type) {
    W d = newnode(N[n].size, type, 0);
    (void) p;
    N[d].isdesc = 1;
    N[n].desc = d;
}
static void op_pa(W len) {
    W n, r = below(NR), sz = len + 1 + HW; void *p; unsigned char *lay;
    W dn;
    h_what = "pointer array";
    p = ggggc_mallocPointerArray(len);
    if (sz < 3) sz = 3;
    fresh(p, sz);
    CHECK(((GGC_voidpArray) p)->length == len, "length of a pointer array");
    CHECK(((struct GGGGC_Descriptor *) hdr_desc(p))->size == sz, "size of a pointer array: %lu for %lu elements", (unsigned long) ((struct GGGGC_Descriptor *) hdr_desc(p))->size, (unsigned long) len);
    n = newnode(sz, NT, 0); adopt(n, p, NT); dn = N[n].desc;
    lay = layout_of(dn, &sz);
    setupnode(n, lay, p, 1);
    setroot(r, n, p);
}
static void op_da(W nmemb, W size) {
    W n, r = below(NR), sz = (nmemb*size + 7)/8 + 1 + HW; void *p;
    h_what = "data array";
    p = ggggc_mallocDataArray(nmemb, size);
    if (sz < 3) sz = 3;
    fresh(p, sz);
    CHECK(((GGC_size_t_Array) p)->length == nmemb, "length of a data array");
    CHECK(((struct GGGGC_Descriptor *) hdr_desc(p))->size == sz, "size of a data array: %lu words for %lu elements of %lu bytes", (unsigned long) ((struct GGGGC_Descriptor *) hdr_desc(p))->size, (unsigned long) nmemb, (unsigned long) size);
    n = newnode(sz, NT + 1, 0); adopt(n, p, NT + 1);
    setupnode(n, NULL, p, 1);
    initdata(n, p);
    ((GGC_size_t_Array) p)->length = nmemb; N[n].s[HW].v = nmemb;
    setroot(r, n, p);
}
/* walk from a random root; returns node id and address, or -1 */
static W pick(void **po) {
    W r, tries, n; void *p;
    for (tries = 0; tries < 8; tries++) {
        r = below(NR);
        if (MR[r].k != KREF) continue;
        n = MR[r].v; p = R[r];
        while (below(3)) {
            W k, i, s0 = N[n].size - HW, st = below(s0 ? s0 : 1), found = 0;
            if (N[n].isdesc) break;
            for (k = 0; k < s0; k++) { i = HW + (st + k) % s0; if (N[n].s[i].k == KREF) { p = (void *) RAW(p, i); n = N[n].s[i].v; found = 1; break; } }
            if (!found) break;
        }
        if (N[n].isdesc) continue;
        *po = p;
        return n;
    }
    return (W) -1;
}
static void op_store(void) {
    void *p; W n = pick(&p), k, s0, st, i, r;
    h_what = "store";
    if (n == (W) -1) return;
    s0 = N[n].size - HW; st = below(s0);
    for (k = 0; k < s0; k++) {
        i = HW + (st + k) % s0;
        if (N[n].s[i].k == KDATA) { if (below(4) == 0 && N[n].type != 12 && N[n].type != NT && N[n].type != NT + 1) { W v = val(); RAW(p, i) = v; N[n].s[i].v = v; return; } continue; }
        r = below(NR);
#ifdef GGGGC_FEATURE_TAGGING
        if (below(4) == 0) { W v = val() | (1 + below(7)); N[n].s[i].k = KTAG; N[n].s[i].v = v; store_ptr(p, i, (void *) v); return; }
#endif
        N[n].s[i] = MR[r];
        store_ptr(p, i, R[r]);
        return;
    }
}
static void op_user(void) {
    void *p; W n = pick(&p), r = below(NR);
    struct G *o;
    void *v;
    h_what = "user pointer";
    if (n == (W) -1) return;
    o = (struct G *) p; v = R[r];
    GGC_WUP(o, v);
    N[N[n].desc].s[0] = MR[r];
    CHECK(GGC_RUP(o) == v, "user pointer read back");
}
static void op_move(void) {
    W r = below(NR); void *p; W n;
    h_what = "roots";
    switch (below(6)) {
        case 0: R[r] = NULL; MR[r].k = KNULL; break;
#ifdef GGGGC_FEATURE_TAGGING
        case 1: { W v = val() | (1 + below(7)); R[r] = (void *) v; MR[r].k = KTAG; MR[r].v = v; break; }
#endif
        default: n = pick(&p); if (n != (W) -1) setroot(r, n, p);
    }
}
static void op_type(void) {
    int t = (int) below(NT);
    h_what = "type";
    if (DR[t]) DR[t] = NULL;    /* objects keep it alive */
    else needtype(t);
}
#ifdef GGGGC_FEATURE_JITPSTACK
static void op_jit(void) {
    W i;
    h_what = "JIT stack";
    if (jcur < 20 || (jcur < JN && below(3) == 0)) {
        /* pop everything or a group boundary: simply reset */
        for (i = jcur; i < JN; i++) { JP[i] = 0; J[i] = JX[i] = (void *) val(); }
        jcur = JN;
    } else {
#ifndef GGGGC_FEATURE_EXTTAG
        W r = below(NR), c = 1 + below(5);
        while (c--) {
            jcur--;
            JP[jcur] = 1; J[jcur] = R[r]; MJ[jcur] = MR[r];
            r = below(NR);
        }
#else
        W c = below(9), k, tags = 0;
        jcur -= c + 1;
        for (k = 0; k < c; k++) {
            W r = below(NR);
            if (below(3)) {
                tags |= (W) (below(120)*2) << (8*k);
                JP[jcur + 1 + k] = 1; J[jcur + 1 + k] = R[r]; MJ[jcur + 1 + k] = MR[r];
            } else {
                tags |= (W) (below(120)*2 + 1) << (8*k);
                JP[jcur + 1 + k] = 0; J[jcur + 1 + k] = JX[jcur + 1 + k] = (void *) val();
            }
        }
        if (c < 8) { tags |= (W) 0xFF << (8*c); if (c < 7) tags |= (W) rnd() << (8*(c + 1)); }
        JP[jcur] = 0; J[jcur] = JX[jcur] = (void *) tags;
#endif
    }
    ggc_jitPointerStack = J + jcur;
}
#endif
#ifdef GGGGC_FEATURE_FINALIZERS
static W *finnodes; static W nfin, capfin;
/* KNOWN-FINDING C15/full: gembc's full collection takes every object for dead
 * (known-findings.txt), so reachability is judged only where no full collection
 * happened since the step began. A full collection sets every pool's breakTableSize. */
#define FULLMARK ((W) -7)
static void full_reset(void) {
#ifndef GGGGC_COLLECTOR_PORTABLEMS
    if (ggggc_gen0) ggggc_gen0->breakTableSize = FULLMARK;
#endif
}
static int full_since(void) {
#ifndef GGGGC_COLLECTOR_PORTABLEMS
    return !ggggc_gen0 || ggggc_gen0->breakTableSize != FULLMARK;
#else
    return 0;
#endif
}
static void finalizer(void *obj) {
    W id = RAW(obj, HW + 2);
    W i;
    const char *w = h_what;
    W n;
    h_what = "finalizer";
    CHECK(id > 0 && id <= nfin, "finalizer called on an object without registration");
    n = finnodes[id - 1];
    CHECK(n != (W) -1 && N[n].fin > 0, "finalizer %lu ran more often than registered", (unsigned long) id);
    modelmark();
    CHECK(!N[n].mark || N[n].revived == h_step + 1 || full_since(), "finalizer of a reachable object ran");
    /* the object and everything reachable from it are intact */
    isobegin();
    for (i = 0; i < NR; i++) if (MR[i].k == KREF) pair(MR[i].v, R[i], "root", i);
    pair(n, obj, "finalized object", 0);
    pairs();
    hm_free(&a2n);
    N[n].fin--; finPending--;
    finRuns++;
    if (below(8) == 0) { /* a finalizer may resurrect its object */
        W r = below(NR), k;
        unsigned char *was = (unsigned char *) malloc(nN);
        /* whatever only this makes reachable again may already be due for
         * finalization in the same collection */
        for (k = 0; k < nN; k++) was[k] = N[k].mark != 0;
        setroot(r, n, obj);
        modelmark();
        for (k = 0; k < nN; k++) if (N[k].mark && !was[k]) N[k].revived = h_step + 1;
        free(was);
    }
    if (below(16) == 0) { /* a finalizer may allocate, and so collect */
        W k = below(200);
        while (k--) ggggc_mallocDataArray(below(20), 8);
    }
    h_what = w;
}
static void finalize_one(void **op) {
    void *o = *op;
    GGC_PUSH_1(o);
    ggggc_finalize(o, finalizer);
    *op = o;
}
static void op_fin(void) {
    W r, n, i; int t = 12; void *o;
    W reps = 1 + (below(5) == 0);
    if (nfin > 60000) return;
    r = op_alloc(t);
    h_what = "finalize";
    n = MR[r].v;
    o = R[r];
    if (nfin == capfin) { capfin = capfin ? 2*capfin : 256; finnodes = (W *) realloc(finnodes, capfin*sizeof(W)); }
    finnodes[nfin++] = n;
    RAW(R[r], HW + 2) = nfin; N[n].s[HW + 2].v = nfin; N[n].s[HW + 2].k = KDATA;
    for (i = 0; i < reps; i++) {
        N[n].fin++; finPending++;
        finalize_one(&o);
    }
}
#endif
#ifndef GGGGC_COLLECTOR_PORTABLEMS
/* room in pools that allocation has already moved past */
static void room(int upto) {
    int k;
    for (k = 0; k <= upto; k++) {
        struct GGGGC_Pool *q, *cur = k ? ggggc_pools[k] : ggggc_pool0; W lost = 0, space = 0;
        if (!h_first(k)) continue;
        for (q = h_first(k); q && q != cur; q = q->next) { lost += q->end - q->free; space += q->end - q->start; }
        CHECK(q || !cur, "the pool generation %d allocates from is not one of its pools", k);
        CHECK(lost*4 <= space, "after a collection %lu of the %lu words before the pool generation %d allocates from are free but words are not available", (unsigned long) lost, (unsigned long) space, k);
    }
}
#endif
static void op_collect(int full) {
    int g = (int) below(GGGGC_GENERATIONS), i;
    W w, u;
    unsigned fr = finRuns;
#ifdef GGGGC_COLLECTOR_PORTABLEMS
    int adj = 0;
    h_what = "collect";
    (void) full; (void) g; (void) i; (void) u; (void) w;
    ggggc_collect();
    if (fr == finRuns) {
        w = walk(1); hm_free(&seen);
        u = totalwords() - freewords(&adj);
        CHECK(u == w, "after a collection %lu words are in use but %lu are reachable", (unsigned long) u, (unsigned long) w);
        CHECK(!adj, "neighbouring free blocks are not merged");
    }
    (void) used;
#else
    if (full) {
        h_what = "full collection";
        ggggc_collect();
        if (fr == finRuns) {
            int k; struct GGGGC_Pool *q;
            w = walk(1); hm_free(&seen);
            u = used();
            CHECK(u == w, "after a full collection %lu words are in use but %lu are reachable", (unsigned long) u, (unsigned long) w);
            for (k = 0; k < GGGGC_GENERATIONS; k++) for (q = h_first(k); q; q = q->next) {
                W *p = q->start;
                while (p < q->free) p += ((struct GGGGC_Descriptor *) p[0])->size;
                CHECK(p == q->free, "objects are not packed after a full collection");
            }
            room(GGGGC_GENERATIONS - 1);
        }
    } else {
        int empty = 1; struct GGGGC_Pool *q;
        static char buf[64];
        sprintf(buf, "collection of generation %d", g);
        h_what = buf;
        ggggc_collect0((unsigned char) g);
        for (i = 0; i <= g && g < GGGGC_GENERATIONS - 1; i++) for (q = h_first(i); q; q = q->next) if (q->free != q->start) empty = 0;
        if (fr == finRuns) room(g == GGGGC_GENERATIONS - 1 || !empty ? GGGGC_GENERATIONS - 1 : g);
        if (fr == finRuns && (g == GGGGC_GENERATIONS - 1 || !empty)) {
            w = walk(1); hm_free(&seen);
            u = used();
            CHECK(u == w, "after a collection up to the oldest generation %lu words are in use but %lu are reachable", (unsigned long) u, (unsigned long) w);
        }
    }
#endif
#ifdef GGGGC_FEATURE_FINALIZERS
    if (full) {
        W k;
        modelmark();
        if (fr == finRuns) /* no finalizer of this collection may have revived anything */
            for (k = 0; k < nfin; k++) if (finnodes[k] != (W) -1 && N[finnodes[k]].fin && !N[finnodes[k]].mark)
                FAIL("unreachable object %lu still has a finalizer that did not run", (unsigned long) k + 1);
    }
#endif
}
static W modelwords(void) {
    W i, u = 0;
    modelmark();
    for (i = 0; i < nN; i++) if (N[i].mark) u += N[i].size;
    return u;
}
static void housekeeping(void) {
#ifdef GGGGC_FEATURE_FINALIZERS
    W k;
    /* renumbering: remember by index */
    W *tmp = (W *) malloc(sizeof(W)*(nfin + 1));
    struct Node *o; (void) o;
    for (k = 0; k < nfin; k++) if (finnodes[k] != (W) -1 && !N[finnodes[k]].fin) { modelmark(); if (!N[finnodes[k]].mark) finnodes[k] = (W) -1; }
    free(tmp);
    return; /* the model keeps all nodes in this mode */
#else
    compactmodel();
#endif
}

/* the allocation profile: how often each operation happens */
static int prof[10];
int main(int argc, char **argv) {
    static struct { struct GGGGC_PointerStack ps; void *more[NR + NT]; } frame;
    W seed = argc > 1 ? strtoul(argv[1], NULL, 10) : 1, steps = argc > 2 ? strtoul(argv[2], NULL, 10) : 3000, i;
    int mode = argc > 3 ? atoi(argv[3]) : 0;
    if (argc > 4) liveLimit = strtoul(argv[4], NULL, 10);
    h_seed(seed);
    frame.ps.next = ggggc_pointerStack;
    frame.ps.size = NR + NT;
    { void **fp = frame.ps.pointers; for (i = 0; i < NR; i++) fp[i] = (void *) &R[i]; for (i = 0; i < NT; i++) fp[NR + i] = (void *) &DR[i]; }
    ggggc_pointerStack = &frame.ps;
#ifdef GGGGC_FEATURE_JITPSTACK
    for (i = 0; i < JN; i++) J[i] = JX[i] = (void *) rnd();
    ggc_jitPointerStack = ggc_jitPointerStackEnd = J + JN;
#endif
    mktypes();
    (void) forceTiny; (void) inFin;
    prof[0] = 40; /* alloc */ prof[1] = 6; prof[2] = 6; prof[3] = 60; prof[4] = 15; prof[5] = 2; prof[6] = 4; prof[7] = 1; prof[8] = 4; prof[9] = 3;
    if (mode == 1) { prof[7] = 0; prof[6] = 8; prof[3] = 30; }           /* minor collections only */
    if (mode == 2) { prof[7] = 6; prof[6] = 0; }                          /* full collections */
    if (mode == 3) { prof[0] = 80; prof[3] = 100; prof[6] = 1; prof[7] = 0; prof[4] = 4; } /* allocation driven, filling generations */
    if (mode == 4) { prof[9] = 20; prof[8] = 20; prof[6] = 12; prof[7] = 4; prof[3] = 30; }
    if (mode == 5) { prof[0] = 70; prof[1] = 0; prof[2] = 0; prof[5] = 0; prof[6] = 3; }   /* small objects: pools fill exactly */
    for (h_step = 0; h_step < steps; h_step++) {
        int tot = 0, k, x;
#ifdef GGGGC_FEATURE_FINALIZERS
        full_reset();
#endif
        for (k = 0; k < 10; k++) tot += prof[k];
        x = (int) below((uint64_t) tot);
        for (k = 0; x >= prof[k]; k++) x -= prof[k];
        switch (k) {
            case 0: op_alloc(mode == 5 ? (int) below(4) : (int) (below(3) ? below(4) : below(NT))); break;
            case 1: op_pa(below(4) ? below(9) : below(140)); break;
            case 2: op_da(below(60), 1 + below(9)); break;
            case 3: op_store(); break;
            case 4: op_move(); break;
            case 5: op_type(); break;
            case 6: op_collect(0); housekeeping(); verify(); break;
            case 7: op_collect(1); housekeeping(); verify(); break;
#ifdef GGGGC_FEATURE_FINALIZERS
            case 8: op_fin(); break;
#else
            case 8: op_user(); break;
#endif
#ifdef GGGGC_FEATURE_JITPSTACK
            case 9: op_jit(); break;
#else
            case 9: op_user(); break;
#endif
        }
        if (h_step % 64 == 63) {
            h_what = "periodic check";
            while (modelwords() > liveLimit) {
                W r = below(NR);
                R[r] = NULL; MR[r].k = KNULL;
#ifdef GGGGC_FEATURE_JITPSTACK
                { W j; for (j = jcur; j < JN; j++) { JP[j] = 0; J[j] = JX[j] = (void *) val(); } jcur = JN; ggc_jitPointerStack = J + JN; }
#endif
                if (below(8) == 0) { W t = below(NT); DR[t] = NULL; }
            }
            verify();
        }
    }
    h_what = "end";
    verify();
    op_collect(1);
    verify();
    printf("ok steps=%lu nodes=%lu finalized=%u\n", h_step, (unsigned long) nN, finRuns);
    return 0;
}
