/* shared parts of the concrete contract harness: the postconditions of the
 * contracts, evaluated on executions of the real library */
#ifndef H_H
#define H_H 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include "ggggc/gc.h"
#include "ggggc-internals.h"
#define W ggc_size_t
#define HW (sizeof(struct GGGGC_Header)/sizeof(W))
static unsigned long h_step;
static const char *h_what = "";
#define FAIL(...) do { printf("FAIL step %lu (%s): ", h_step, h_what); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
static uint64_t h_rs = 88172645463325252ull;
static inline uint64_t rnd(void) { h_rs ^= h_rs << 13; h_rs ^= h_rs >> 7; h_rs ^= h_rs << 17; return h_rs*2685821657736338717ull >> 11; }
static inline uint64_t below(uint64_t n) { return rnd() % n; }
static inline void h_seed(uint64_t s) { int i; h_rs = s*0x9E3779B97F4A7C15ull + 88172645463325252ull; if (!h_rs) h_rs = 1; for (i = 0; i < 8; i++) rnd(); }
/* a generic object: header and words; mutated with the library's write operations */
struct G { struct GGGGC_Header header; void *w[1]; };
static inline void store_ptr(void *obj, W idx, void *val) {
    struct G *o = (struct G *) obj;
    GGGGC_WP(o, w[idx - HW], val);
}
#define RAW(o, i) (((W *) (o))[i])
static inline void *hdr_desc(void *o) { return (void *) ((struct GGGGC_Header *) o)->descriptor__ptr; }
/* is word i of objects of descriptor d a pointer? (independent reading of the layout) */
static inline int d_isptr(struct GGGGC_Descriptor *d, W i) {
    if (i == 0) return 1;
#ifndef GGGGC_FEATURE_EXTTAG
    if (!(d->pointers[0] & 1)) return 0;
    return (d->pointers[i/64] >> (i % 64)) & 1;
#else
    if (d->tags[0] == 1) return 0;
    return !(d->tags[i] & 1);
#endif
}
static inline int istag(void *p) {
#ifdef GGGGC_FEATURE_TAGGING
    return ((W) p & (sizeof(W) - 1)) != 0;
#else
    (void) p;
    return 0;
#endif
}
/* call f for every pool of the calling thread's generation 0 and the shared generations */
static inline struct GGGGC_Pool *h_first(int g) { return g == 0 ? ggggc_gen0 : ggggc_gens[g]; }
static inline struct GGGGC_Pool *h_poolof(void *p, int *gen) {
    int g; struct GGGGC_Pool *q;
    for (g = 0; g < GGGGC_GENERATIONS; g++)
        for (q = h_first(g); q; q = q->next)
            if ((W *) p >= q->start && (W *) p < q->end) { if (gen) *gen = g; return q; }
    return NULL;
}
/* address set / map */
struct hmap { void **k; W *v; W cap, n; };
static inline void hm_init(struct hmap *m, W cap) { m->cap = cap; m->n = 0; m->k = (void **) calloc(cap, sizeof(void *)); m->v = (W *) calloc(cap, sizeof(W)); }
static inline void hm_free(struct hmap *m) { free(m->k); free(m->v); }
static inline W *hm_at(struct hmap *m, void *k, int add) {
    W i = (((W) k >> 3)*0x9E3779B97F4A7C15ull >> 20) & (m->cap - 1);
    while (m->k[i]) { if (m->k[i] == k) return &m->v[i]; i = (i + 1) & (m->cap - 1); }
    if (!add) return NULL;
    if (m->n*2 >= m->cap) {
        struct hmap o = *m; W j;
        hm_init(m, o.cap*2);
        for (j = 0; j < o.cap; j++) if (o.k[j]) *hm_at(m, o.k[j], 1) = o.v[j];
        hm_free(&o);
        return hm_at(m, k, 1);
    }
    m->k[i] = k; m->n++;
    return &m->v[i];
}
/* use up the young generation so that one of the next few allocations collects */
static inline void h_brink(void) {
#ifdef GGGGC_COLLECTOR_GEMBC
    W leave = below(24), i;
    (void) ggggc_mallocDataArray(1, sizeof(W));
    for (i = 0; i < 20000; i++) {
        struct GGGGC_Pool *p = ggggc_pool0;
        W rem = p->end - p->free;
        if (rem > 600) (void) ggggc_mallocDataArray(500, sizeof(W));
        else if (rem > leave || p->next) (void) ggggc_mallocDataArray(below(2), sizeof(W));
        else break;
    }
#endif
}
#endif
