/* Concrete contracts of descriptors (C06, C22), arrays (C07), objects (C05),
 * pools (C08).  args: seed section [n] */
#include "h.h"
#include <errno.h>
#ifdef H_INC_ALLOCATOR
/* the allocator source itself, with the back end chosen by the harness */
#include <unistd.h>
#ifdef H_MMAP
#undef _POSIX_ADVISORY_INFO
#define _POSIX_ADVISORY_INFO 0
#ifndef _GNU_SOURCE
#define MAP_ANON 0x20
#endif
#endif
#include H_INC_ALLOCATOR
#endif

#define HDRW HW
GGC_TYPE(Pair)
    GGC_MPTR(void *, a);
    GGC_MDATA(ggc_size_t, b);
    GGC_MPTR(void *, c);
GGC_END_TYPE(Pair, GGC_PTR(Pair, a) GGC_PTR(Pair, c))
GGC_TYPE(Tiny1)
    GGC_MDATA(char, b);
GGC_END_TYPE(Tiny1, GGC_NO_PTRS)
GGC_TYPE(Wide)
    GGC_MDATA(int, i);
    GGC_MPTR(Pair, p);
    GGC_MDATA(double, d);
    GGC_MPTR(Pair, q);
    GGC_MDATA(char, tail);
GGC_END_TYPE(Wide, GGC_PTR(Wide, p) GGC_PTR(Wide, q))
typedef struct { ggc_size_t w[30]; } X30;
typedef struct { ggc_size_t w[20]; } X20;
GGC_TYPE(Big)
    GGC_MDATA(X30, x1);
    GGC_MPTR(void *, p31);
    GGC_MPTR(void *, p32);
    GGC_MDATA(X20, x2);
    GGC_MPTR(void *, p53);
GGC_END_TYPE(Big, GGC_PTR(Big, p31) GGC_PTR(Big, p32) GGC_PTR(Big, p53))

static W min0(W s) { return s < GGGGC_MINIMUM_OBJECT_SIZE ? GGGGC_MINIMUM_OBJECT_SIZE : s; }
/* words needed by a descriptor with room for every description bit / tag */
static W dneed(W size, int lay) {
#ifdef GGGGC_FEATURE_EXTTAG
    return (offsetof(struct GGGGC_Descriptor, tags) + (lay ? size : 1) + 7)/8;
#else
    return offsetof(struct GGGGC_Descriptor, pointers)/8 + (lay ? (size + 63)/64 : 1);
#endif
}
static int bit(const W *l, W i) { return (l[i/64] >> (i % 64)) & 1; }
static void chain(struct GGGGC_Descriptor *d) {
    int k;
    for (k = 0; k < 6; k++) {
        struct GGGGC_Descriptor *dd = d->header.descriptor__ptr; W i, n = k == 0 ? 0 : 0;
        CHECK(dd && h_poolof(dd, NULL), "descriptor has no type");
        CHECK(ggggc_descriptorDescriptors[dd->size] == dd, "descriptor type of size %lu is not the shared one", (unsigned long) dd->size);
        for (i = 0; i < dd->size && i < 4096; i++)
            CHECK(!!d_isptr(dd, i) == (i == 0 || i == offsetof(struct GGGGC_Descriptor, user__ptr)/8), "descriptor type marks word %lu wrongly", (unsigned long) i);
        CHECK(dd->user__ptr == NULL || n, "descriptor type with a user pointer");
        d = dd;
    }
}
/* lay: pointer layout (NULL: none); the descriptor describes min0(size) words */
static void checkd(struct GGGGC_Descriptor *d, W size, const W *lay, const char *what) {
    W i; W s = min0(size);
    CHECK(d != NULL && ((W) d & 7) == 0 && h_poolof(d, NULL), "%s descriptor is not an object", what);
    CHECK(d->size == s, "%s descriptor of size %lu reports %lu", what, (unsigned long) size, (unsigned long) d->size);
    CHECK(d->header.descriptor__ptr->size >= dneed(s, lay != NULL), "%s descriptor of size %lu is only %lu words long", what, (unsigned long) size, (unsigned long) d->header.descriptor__ptr->size);
    for (i = 0; i < s; i++) {
        int w = i == 0 ? 1 : i >= size ? 0 : lay ? bit(lay, i) : 0;
        if (i >= size && i) continue;
        CHECK(!!d_isptr(d, i) == w, "%s descriptor of size %lu marks word %lu as %s pointer", what, (unsigned long) size, (unsigned long) i, w ? "no" : "a");
    }
    CHECK(d->user__ptr == NULL, "%s descriptor starts with a user pointer", what);
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
    CHECK(d->header.ggggc_memoryCorruptionCheck == GGGGC_MEMORY_CORRUPTION_VAL, "canary of descriptor");
#endif
    chain(d);
}
static void checkobj(void *o, struct GGGGC_Descriptor *d, W size, const char *what) {
    int g; struct GGGGC_Pool *p; W i;
    CHECK(o && ((W) o & 7) == 0, "%s: not aligned", what);
    p = h_poolof(o, &g);
    CHECK(p && g == 0, "%s: not in a pool of this thread's first generation", what);
    CHECK((W *) o + size <= p->end, "%s: object reaches over the end of its pool", what);
#ifdef GGGGC_COLLECTOR_GEMBC
    CHECK((W *) o + size <= p->free, "%s: object is not accounted for in its pool", what);
#endif
    CHECK(hdr_desc(o) == (void *) d, "%s: wrong type", what);
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
    CHECK(RAW(o, 1) == GGGGC_MEMORY_CORRUPTION_VAL, "%s: no canary", what);
#endif
    for (i = HW; i < size; i++) CHECK(RAW(o, i) == 0, "%s: word %lu is not zero", what, (unsigned long) i);
}
static void gc(void) { switch (below(3)) { case 0: ggggc_collect0(0); break; case 1: ggggc_collect(); break; default: break; } }

static W maxobj(void) { /* largest object that fits a pool */
    struct GGGGC_Pool *p = ggggc_gen0; return p->end - p->start;
}
static W lay[1 << 15];
static void randlay(W size, int k) {
    W i, n = (size + 63)/64 + 1;
    for (i = 0; i < n; i++) lay[i] = k == 0 ? (W) rnd()*rnd() : k == 1 ? 0 : k == 2 ? (W) -1 : (W) 1 << below(64);
}
static void desc1(W size) {
    struct GGGGC_Descriptor *d = NULL; void *o = NULL;
    int k = below(4), live = size < maxobj()/6;
    GGC_PUSH_2(d, o);
    if (size >= maxobj()/3) return;
    memset(lay, 0, sizeof lay);
    randlay(size, k);
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
    lay[0] &= ~(W) 2;
#endif
    switch (below(5)) {
        case 0: h_what = "descriptor, one word";
            if (size > 64) goto multi;
            if (below(4) == 0) lay[0] &= ~(W) 1;
            if (size == 0) lay[0] = 0;
            d = ggggc_allocateDescriptor(size, lay[0]); lay[0] |= 1; break;
        default: multi: h_what = "descriptor, layout";
            d = ggggc_allocateDescriptorL(size, lay); lay[0] |= 1; break;
        case 2: h_what = "descriptor, data";
            d = ggggc_allocateDescriptorDA(size); checkd(d, size, NULL, h_what);
            if (live) { o = ggggc_malloc(d); checkobj(o, d, min0(size), h_what); gc(); checkd((struct GGGGC_Descriptor *) hdr_desc(o), size, NULL, "data, collected,"); }
            return;
        case 3: {
            W i;
            h_what = "descriptor, pointer array";
            if (size < HW + 1) return;
            d = ggggc_allocateDescriptorPA(size);
            for (i = 0; i <= size/64; i++) lay[i] = (W) -1;
            lay[0] &= ~(((W) 1 << (HW + 1)) - 1);
            break;
        }
#ifdef GGGGC_FEATURE_EXTTAG
        case 4: {
            static unsigned char t[1 << 16]; W i;
            h_what = "descriptor, tags";
            if (size < 3 || size >= sizeof t) return;
            for (i = 0; i < size; i++) t[i] = below(3) ? (unsigned char) (2*below(128)) : (unsigned char) (2*below(128) + 1);
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
            t[1] = 1;
#endif
            d = ggggc_allocateDescriptorT(size, t);
            for (k = 0; k < 2; k++) {
                for (i = 1; i < size; i++) CHECK(d->tags[i] == t[i], "descriptor made from %lu tags has tag %u, not %u, at word %lu", (unsigned long) size, d->tags[i], t[i], (unsigned long) i);
                CHECK(!(d->tags[0] & 1), "descriptor made from tags does not mark the header");
                for (i = 0; i <= size/64; i++) lay[i] = 0;
                for (i = 0; i < size; i++) if (!(t[i] & 1)) lay[i/64] |= (W) 1 << (i % 64);
                lay[0] |= 1;
                checkd(d, size, lay, h_what);
                gc();
            }
            return;
        }
#endif
    }
    checkd(d, size, lay, h_what);
    if (live) { o = ggggc_malloc(d); checkobj(o, d, min0(size), h_what); }
    gc();
    checkd(d, size, lay, "collected");
    if (live) { CHECK(hdr_desc(o) == (void *) d, "object lost its type"); { void *o2 = ggggc_malloc(d); checkobj(o2, d, min0(size), h_what); } }
    GGC_POP();
    return;
}
static void arr1(W n) {
    GGC_voidpArray a = NULL; Pair p = NULL; W i; struct GGGGC_Descriptor *d; GGC_size_t_Array da = NULL;
    void *o = NULL;
    GGC_PUSH_4(a, p, o, da);
    h_what = "pointer array";
    if (n + HW + 1 > maxobj()/4) return;
    p = GGC_NEW(Pair); { ggc_size_t bv = n + 17; GGC_WD(p, b, bv); }
    a = GGC_NEW_PA(GGC_voidp, n);
    CHECK(GGC_LENGTH(a) == n, "pointer array of %lu elements has length %lu", (unsigned long) n, (unsigned long) GGC_LENGTH(a));
    d = a->header.descriptor__ptr;
    CHECK((char *) &a->a__ptrs[n] <= (char *) a + d->size*sizeof(W), "pointer array of %lu elements has only %lu words", (unsigned long) n, (unsigned long) d->size);
    for (i = 0; i < n; i++) { CHECK(GGC_RAP(a, i) == NULL, "pointer array of %lu: element %lu is not null", (unsigned long) n, (unsigned long) i); CHECK(d_isptr(d, (W) ((void **) &a->a__ptrs[i] - (void **) a)), "pointer array of %lu: element %lu is not treated as a pointer", (unsigned long) n, (unsigned long) i); }
    CHECK(d_isptr(d, 0), "array header not marked");
    CHECK(!d_isptr(d, offsetof(struct GGC_voidp__ggggc_parray, length)/sizeof(W)), "pointer array: the length word is treated as a pointer");
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
    CHECK(!d_isptr(d, 1), "pointer array: the canary is treated as a pointer");
#endif
    { struct GGGGC_Pool *q = h_poolof(a, NULL); CHECK(q && (W *) a + d->size <= q->end, "array reaches over its pool"); }
    for (i = 0; i < n; i++) GGC_WAP(a, i, p);
    CHECK(GGC_LENGTH(a) == n, "writing elements changed the length");
    gc();
    CHECK(GGC_LENGTH(a) == n, "array of %lu elements has length %lu after a collection", (unsigned long) n, (unsigned long) GGC_LENGTH(a));
    for (i = 0; i < n; i++) CHECK(GGC_RAP(a, i) == p, "array element %lu of %lu not updated by a collection", (unsigned long) i, (unsigned long) n);
    CHECK(GGC_RD(p, b) == n + 17, "object behind array changed");
    {
        static const unsigned szs[] = {1, 2, 4, 8, 3, 5, 12, 24};
        unsigned s = szs[below(8)]; unsigned char *c; W bytes;
        h_what = "data array";
        if ((n*s)/8 + HW + 4 > maxobj()/4) s = 1;
        if (below(2)) { da = GGC_NEW_DA(size_t, n/8); n /= 8; s = sizeof(size_t); } else da = (GGC_size_t_Array) ggggc_mallocDataArray(n, s);
        bytes = n*s;
        d = da->header.descriptor__ptr;
        c = (unsigned char *) &da->a__data[0];
        CHECK(GGC_LENGTH(da) == n, "data array of %lu elements has length %lu", (unsigned long) n, (unsigned long) GGC_LENGTH(da));
        CHECK(c + bytes <= (unsigned char *) da + d->size*sizeof(W), "data array of %lu elements of %u bytes has only %lu words", (unsigned long) n, s, (unsigned long) d->size);
        for (i = 1; i < d->size && i < 100; i++) CHECK(!d_isptr(d, i), "data array: word %lu is treated as a pointer", (unsigned long) i);
        for (i = 0; i < bytes; i++) CHECK(c[i] == 0, "data array does not start zeroed (byte %lu of %lu)", (unsigned long) i, (unsigned long) bytes);
        /* contents that look like addresses of objects */
        for (i = 0; i + 8 <= bytes; i += 8) *(void **) (c + i) = (i & 8) ? (void *) p : (void *) a;
        o = GGC_NEW(Pair);
        { W want0 = (W) p, want1 = (W) a;
          gc();
          c = (unsigned char *) &da->a__data[0];
          CHECK(GGC_LENGTH(da) == n, "data array length changed by a collection");
          for (i = 0; i + 8 <= bytes; i += 8) CHECK(*(W *) (c + i) == ((i & 8) ? want0 : want1), "data array word changed by a collection"); }
    }
    GGC_POP();
}
static void obj1(void) {
    void *o = NULL, *prev = NULL;
    GGC_PUSH_2(o, prev);
    h_what = "object of a declared type";
    switch (below(4)) {
        case 0: o = GGC_NEW(Pair); checkobj(o, Pair__descriptorSlot.descriptor, min0(sizeof(struct Pair__ggggc_struct)/8), "Pair");
            { W l = 1 | (W) 1 << offsetof(struct Pair__ggggc_struct, a__ptr)/8 | (W) 1 << offsetof(struct Pair__ggggc_struct, c__ptr)/8; checkd((struct GGGGC_Descriptor *) hdr_desc(o), sizeof(struct Pair__ggggc_struct)/8, &l, "declared type"); } break;
        case 1: o = GGC_NEW(Tiny1); checkobj(o, Tiny1__descriptorSlot.descriptor, min0((sizeof(struct Tiny1__ggggc_struct) + 7)/8), "Tiny1");
            { W l = 1; checkd((struct GGGGC_Descriptor *) hdr_desc(o), (sizeof(struct Tiny1__ggggc_struct) + 7)/8, &l, "declared type"); } break;
        case 2: o = GGC_NEW(Wide); checkobj(o, Wide__descriptorSlot.descriptor, min0((sizeof(struct Wide__ggggc_struct) + 7)/8), "Wide");
            { W l = 1 | (W) 1 << offsetof(struct Wide__ggggc_struct, p__ptr)/8 | (W) 1 << offsetof(struct Wide__ggggc_struct, q__ptr)/8; checkd((struct GGGGC_Descriptor *) hdr_desc(o), (sizeof(struct Wide__ggggc_struct) + 7)/8, &l, "declared type"); } break;
        default: o = GGC_NEW(Big); checkobj(o, Big__descriptorSlot.descriptor, min0(sizeof(struct Big__ggggc_struct)/8), "Big");
            { W l = 1 | (W) 1 << offsetof(struct Big__ggggc_struct, p31__ptr)/8 | (W) 1 << offsetof(struct Big__ggggc_struct, p32__ptr)/8 | (W) 1 << offsetof(struct Big__ggggc_struct, p53__ptr)/8; checkd((struct GGGGC_Descriptor *) hdr_desc(o), sizeof(struct Big__ggggc_struct)/8, &l, "declared type"); } break;
    }
    GGC_POP();
}
/* ---------------------------------------------------------------- slots */
#define NS 40
static struct GGGGC_DescriptorSlot S[NS];
static W Ssz[NS], Slay[NS];
static void *uptr; static unsigned char Sup[NS];
static void slots(unsigned long n) {
    unsigned i;
    h_what = "descriptor slot";
    for (i = 0; i < NS; i++) {
        static ggc_mutex_t m0 = GGC_MUTEX_INITIALIZER;
        S[i].lock = m0; S[i].descriptor = NULL; S[i].size = Ssz[i] = HW + below(60); S[i].pointers = Slay[i] = rnd();
#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
        S[i].pointers = Slay[i] &= ~(W) 2;
#endif
    }
    while (n--) {
        struct GGGGC_Descriptor *d, *d2; void *o = NULL; W l;
        GGC_PUSH_1(o);
        h_step++;
        i = below(NS);
        if (below(2)) d = ggggc_allocateDescriptorSlot(&S[i]);
        else { o = ggggc_mallocSlot(&S[i]); d = S[i].descriptor; checkobj(o, d, min0(Ssz[i]), "slot object"); }
        CHECK(d && d == S[i].descriptor, "slot does not hold the descriptor it returned");
        d2 = ggggc_allocateDescriptorSlot(&S[i]);
        CHECK(d == d2, "asking a slot again gave another descriptor");
        l = Slay[i] | 1;
        if (!Sup[i]) checkd(d, Ssz[i], &l, "slot");
        if (below(3) == 0) { for (l = below(50); l; l--) (void) GGC_NEW(Pair); gc(); }
        if (o) CHECK(hdr_desc(o) == (void *) S[i].descriptor, "object and slot disagree about the type after a collection");
        for (i = 0; i < NS; i++) if (S[i].descriptor) { l = Slay[i] | 1; checkd(S[i].descriptor, Ssz[i], &l, "slot, later,"); }
        for (l = 0; l < 200; l++) if (ggggc_descriptorDescriptors[l]) CHECK(ggggc_descriptorDescriptors[l]->size == l && h_poolof(ggggc_descriptorDescriptors[l], NULL), "descriptor type of size %lu did not stay valid", (unsigned long) l);
        GGC_POP();
    }
}
/* ---------------------------------------------------------------- pools */
#define NP 64
static struct GGGGC_Pool *out[NP]; static int nout;
static int failAlloc;
#ifdef H_WRAP
extern int __real_posix_memalign(void **, size_t, size_t);
int __wrap_posix_memalign(void **p, size_t a, size_t s) { if (failAlloc) return 12; return __real_posix_memalign(p, a, s); }
extern void *__real_malloc(size_t);
void *__wrap_malloc(size_t s) { if (failAlloc && s >= GGGGC_POOL_BYTES) { errno = ENOMEM; return NULL; } return __real_malloc(s); }
extern void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t s, int p, int f, int d, off_t o) { if (failAlloc) { errno = ENOMEM; return (void *) -1; } return __real_mmap(a, s, p, f, d, o); }
extern void *__real_sbrk(intptr_t);
void *__wrap_sbrk(intptr_t n) { if (failAlloc && n) { errno = ENOMEM; return (void *) -1; } return __real_sbrk(n); }
#endif
static void poolok(struct GGGGC_Pool *p, const char *what) {
    int i;
    CHECK(p != NULL, "%s: no pool", what);
#if !defined(GGGGC_COLLECTOR_PORTABLEMS)
    CHECK(((W) p & (GGGGC_POOL_BYTES - 1)) == 0, "%s: pool is not aligned to its size", what);
#endif
    CHECK(((W) p & 7) == 0, "%s: pool misaligned", what);
    CHECK(p->next == NULL, "%s: pool is not alone", what);
    CHECK(p->free == p->start, "%s: pool is not empty", what);
    CHECK((char *) p->end == (char *) p + GGGGC_POOL_BYTES, "%s: pool does not end at its size", what);
    CHECK(p->survivors == 0, "%s: pool has survivors", what);
#ifdef GGGGC_FEATURE_FINALIZERS
    CHECK(p->finalizers == NULL, "%s: pool has finalizers", what);
#endif
    for (i = 0; i < nout; i++) {
        W d = (W) p > (W) out[i] ? (W) p - (W) out[i] : (W) out[i] - (W) p;
        CHECK(d >= GGGGC_POOL_BYTES, "%s: pool overlaps one that is in use", what);
    }
    { struct GGGGC_Pool *q; int g; for (g = 0; g < GGGGC_GENERATIONS; g++) for (q = h_first(g); q; q = q->next) CHECK(q != p, "%s: pool is in use by the heap", what); }
    /* it must all be ours to write */
    memset(p->start, 0x5a, (char *) p->end - (char *) p->start);
    p->survivors = 77;
#ifdef GGGGC_FEATURE_FINALIZERS
    p->finalizers = (void *) 0x1230;
#endif
}
static int protoFail = -1; static struct GGGGC_Pool *protoArg;
static struct GGGGC_Pool *mkpool(struct GGGGC_Pool *proto) {
    CHECK(proto == protoArg, "pool list grown from the wrong prototype");
    if (protoFail == 0) return NULL;
    if (protoFail > 0) protoFail--;
    return ggggc_newPool(0);
}
static void pools(unsigned long n) {
    struct GGGGC_Pool *freed[4*NP]; int nfreed = 0, i;
    memset(freed, 0, sizeof freed);
    while (n--) {
        h_step++;
        switch (below(6)) {
            case 0: case 1: case 2: {
                struct GGGGC_Pool *p;
                h_what = "newPool";
                if (nout >= NP) break;
                failAlloc = nfreed && below(3) == 0;
                p = ggggc_newPool(below(2));
                failAlloc = 0;
                poolok(p, nfreed ? "newPool with recycled pools" : "newPool");
                if (nfreed) {
                    for (i = 0; i < nfreed && freed[i] != p; i++);
                    CHECK(i < nfreed, "newPool made a new pool although %d returned ones were available", nfreed);
                    freed[i] = freed[--nfreed];
                }
                out[nout++] = p;
                break;
            }
            case 3: {
                int k = 1 + below(4); struct GGGGC_Pool *l = NULL;
                h_what = "freeGeneration";
                if (below(8) == 0) { ggggc_freeGeneration(NULL); break; }
                while (k-- && nout) { i = below(nout); out[i]->next = l; l = out[i]; freed[nfreed++] = out[i]; out[i] = out[--nout]; }
                ggggc_freeGeneration(l);
                break;
            }
            case 4: {
                /* growing a list */
                struct GGGGC_Pool *l = NULL, *p, *orig[12]; int k = 1 + below(5), no = 0, nn = 0, ratio = below(4); W space = 0, surv = 0;
                h_what = "expandPoolList";
                if (nout < k || nout + k > NP) break;
                for (i = 0; i < k; i++) { p = out[--nout]; p->next = l; l = p; }
                for (p = l; p; p = p->next) { orig[no++] = p; p->survivors = below(4) ? below(p->end - p->start) : (p->end - p->start) >> ratio; space += p->end - p->start; surv += p->survivors; }
                protoArg = l; protoFail = below(3) ? -1 : (int) below(k + 1);
                { int pf = protoFail;
                ggggc_expandPoolList(l, mkpool, ratio);
                i = 0;
                for (p = l; p; p = p->next) {
                    CHECK(i < 2*no, "expandPoolList added more pools than there were");
                    if (i < no) CHECK(p == orig[i], "expandPoolList lost or reordered a pool"); 
                    else { int j; struct GGGGC_Pool *nx = p->next; p->next = NULL; poolok(p, "pool added by expandPoolList"); p->next = nx; nn++; for (j = 0; j < nfreed; j++) if (freed[j] == p) { freed[j] = freed[--nfreed]; break; } }
                    if (i < no) CHECK(p->survivors == 0, "expandPoolList left a survivor count");
                    out[nout++] = p; i++;
                }
                CHECK(i >= no, "expandPoolList lost pools");
                if (surv << ratio > space) CHECK(nn == (pf < 0 || pf > no ? no : pf), "expandPoolList added %d pools to %d full ones", nn, no);
                else CHECK(nn == 0, "expandPoolList grew a list that is not full"); }
                for (i = 0; i < nout; i++) out[i]->next = NULL;
                break;
            }
            case 5:
                h_what = "newPool without memory";
                if (nfreed) break;
#if defined(H_WRAP) && !defined(GGGGC_USE_MALLOC)
                failAlloc = 1;
                CHECK(ggggc_newPool(0) == NULL, "newPool invented a pool");
                failAlloc = 0;
#endif
                break;
        }
        for (i = 0; i < nout; i++) CHECK((char *) out[i]->end == (char *) out[i] + GGGGC_POOL_BYTES && ((unsigned char *) out[i]->start)[5] == 0x5a && ((unsigned char *) out[i]->end)[-1] == 0x5a, "a pool in use was written to");
    }
    /* everything returned comes back exactly once */
    h_what = "draining returned pools";
    while (nfreed) {
        struct GGGGC_Pool *p;
#ifdef H_WRAP
        failAlloc = 1;
#endif
        p = ggggc_newPool(0);
        failAlloc = 0;
        CHECK(p != NULL, "%d returned pools are not available again", nfreed);
        for (i = 0; i < nfreed && freed[i] != p; i++);
        CHECK(i < nfreed, "newPool ignores returned pools or hands one out twice");
        freed[i] = freed[--nfreed];
        CHECK(p->next == NULL && p->free == p->start, "recycled pool is not empty");
    }
}
int main(int argc, char **argv) {
    const char *sec = argc > 2 ? argv[2] : "all";
    unsigned long n = argc > 3 ? strtoul(argv[3], 0, 10) : 300, i;
    int all = !strcmp(sec, "all");
    Pair keep = NULL;
    GGC_PUSH_1(keep);
    h_seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1);
    keep = GGC_NEW(Pair);
    if (all || !strcmp(sec, "desc")) {
        for (i = 0; i < n; i++) { h_step++; desc1(i < 200 ? i : below(10) ? below(600) : below(maxobj()/4)); }
        for (i = 0; i < n; i++) { h_step++; desc1(below(140)); }
    }
    if (all || !strcmp(sec, "arr")) for (i = 0; i < n; i++) { h_step++; arr1(i < 200 ? i : below(10) ? below(400) : below(maxobj()/4)); }
    if (all || !strcmp(sec, "obj")) for (i = 0; i < n*10; i++) { h_step++; obj1(); if (!below(200)) gc(); }
    if (all || !strcmp(sec, "slot")) slots(n);
    if (all || !strcmp(sec, "pool")) pools(n);
    printf("ok %s %lu\n", sec, n);
    return 0;
}
