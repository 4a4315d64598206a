/* Model-based exploration of the map contracts (C13, C14) */
#include "h.h"
#include "ggggc/collections/map.h"
GGC_TYPE(Box)
    GGC_MDATA(ggc_size_t, id);
    GGC_MDATA(ggc_size_t, nonce);
GGC_END_TYPE(Box, GGC_NO_PTRS)
static unsigned hk, collects, hcoll;
static void sometimes(void) { if (hcoll && !below(hcoll)) { if (below(8)) ggggc_collect0(0); else ggggc_collect(); collects++; } }
static size_t hashf(Box b) {
    size_t id = GGC_RD(b, id), r;
    switch (hk) {
        case 0: r = id; break;
        case 1: r = 0; break;
        case 2: r = id % 3; break;
        case 3: r = (size_t) -1 - id; break;
        case 4: r = id*0x9E3779B97F4A7C15ull; break;
        default: r = id << 4; break;
    }
    sometimes();
    return r;
}
static int cmpf(Box a, Box b) {
    size_t x = GGC_RD(a, id), y = GGC_RD(b, id);
    sometimes();
    return x < y ? -1 : x > y ? 5 : 0;
}
GGC_MAP(BoxMap, Box, Box, hashf, cmpf)
#define NM 4
#define NK 1200
static unsigned nk = 60;
static GGC_MapArray maps;      /* rooted */
static BoxArray keep;          /* every value by nonce, rooted */
static size_t nonce;
static struct { size_t v; int in; } M[NM][NK]; static unsigned cnt[NM]; static int typed[NM];
static Box mk(size_t id, size_t nc) { Box b = GGC_NEW(Box); GGC_WD(b, id, id); GGC_WD(b, nonce, nc); return b; }
static GGC_Map mp(int m) { return GGC_RAP(maps, m); }
static const char *prop = "map";
static unsigned char seen[NK];
static void walk(int m, const char *w) {
    GGC_Map map = mp(m);
    ggc_size_t i, n = 0, sz = GGC_RD(map, size);
    memset(seen, 0, sizeof seen);
    CHECK(GGC_RD(map, used) == cnt[m], "%s %s: counts %lu keys, should be %u", prop, w, (unsigned long) GGC_RD(map, used), cnt[m]);
    if (sz) {
        GGC_MapEntryArray es = GGC_RP(map, entries);
        GGC_MapEntry e;
        CHECK(es->length == sz, "%s %s: %lu buckets recorded, %lu there", prop, w, (unsigned long) sz, (unsigned long) es->length);
        for (i = 0; i < sz; i++) for (e = GGC_RAP(es, i); e; e = GGC_RP(e, next)) {
            Box k = (Box) GGC_RP(e, key), v = (Box) GGC_RP(e, value);
            size_t id = GGC_RD(k, id);
            CHECK(id < NK && M[m][id].in, "%s %s: holds a key never put", prop, w);
            CHECK(!seen[id], "%s %s: a key is stored twice", prop, w);
            seen[id] = 1; n++;
            if (!v) CHECK(M[m][id].v == (size_t) -1, "%s %s: a value became null", prop, w);
            else CHECK(GGC_RD(v, nonce) == M[m][id].v && GGC_RD(v, id) == id, "%s %s: key %lu has the wrong value", prop, w, (unsigned long) id);
        }
    }
    CHECK(n == cnt[m], "%s %s: stores %lu keys, should be %u", prop, w, (unsigned long) n, cnt[m]);
}
static void get(int m, size_t id) {
    void *v = (void *) 8; int r;
    Box k = NULL;
    GGC_PUSH_1(k);
    k = mk(id, 0);
    if (typed[m]) { Box bv = NULL; r = BoxMapGet((BoxMap) mp(m), k, &bv); v = r ? (void *) bv : (void *) 8; }
    else r = GGC_MapGet(mp(m), k, &v, (ggc_map_hash_t) hashf, (ggc_map_cmp_t) cmpf);
    CHECK(!r == !M[m][id].in, "%s get: %s key reported as %s", prop, M[m][id].in ? "present" : "absent", r ? "present" : "absent");
    if (r) {
        if (M[m][id].v == (size_t) -1) CHECK(v == NULL, "%s get: wrong value", prop);
        else CHECK(v && v != (void *) 8 && GGC_RD((Box) v, nonce) == M[m][id].v && GGC_RD((Box) v, id) == id, "%s get: wrong value", prop);
    }
    GGC_POP();
}
int main(int argc, char **argv) {
    unsigned long steps = argc > 2 ? strtoul(argv[2], 0, 10) : 2000;
    unsigned i;
    unsigned mode = argc > 3 ? strtoul(argv[3], 0, 10) : 0;    /* 0 maps, 1 with clones */
    Box k = NULL, v = NULL; GGC_Map nm = NULL;
    h_seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1);
    GGC_PUSH_5(maps, keep, k, v, nm);
    hk = below(6);
    { static const unsigned nks[] = {3, 10, 60, 300, 1200}, hcs[] = {0, 0, 500, 60}; nk = nks[below(5)]; hcoll = hcs[below(4)]; }
    maps = GGC_NEW_PA(GGC_Map, NM);
    for (i = 0; i < NM; i++) { typed[i] = i & 1; if (typed[i]) nm = (GGC_Map) GGC_NEW(BoxMap); else nm = GGC_NEW(GGC_Map); GGC_WAP(maps, i, nm); }
    for (h_step = 1; h_step <= steps; h_step++) {
        unsigned m = below(NM), op = below(100);
        size_t id = below(nk);
        if (op < 45) {
            h_what = "MapPut";
            k = mk(id, 7);
            if (below(12)) { v = mk(id, ++nonce); M[m][id].v = nonce; } else { v = NULL; M[m][id].v = (size_t) -1; }
            if (!M[m][id].in) { M[m][id].in = 1; cnt[m]++; }
            if (!below(4)) h_brink();
            if (typed[m]) BoxMapPut((BoxMap) mp(m), k, v);
            else GGC_MapPut(mp(m), k, v, (ggc_map_hash_t) hashf, (ggc_map_cmp_t) cmpf);
            k = v = NULL;
            if (nk < 100 || !below(20)) walk(m, "put");
            get(m, id);
        } else if (op < 75) { h_what = "MapGet"; if (!below(8)) h_brink(); get(m, id); }
        else if (op < 85) { h_what = "garbage"; for (i = below(300); i; i--) (void) GGC_NEW(Box); }
        else if (op < 87) { h_what = "collection"; ggggc_collect0(0); }
        else if (op < 88) { h_what = "full collection"; ggggc_collect(); }
        else if (op < 89) {
            h_what = "new map";
            nm = typed[m] ? (GGC_Map) GGC_NEW(BoxMap) : GGC_NEW(GGC_Map); GGC_WAP(maps, m, nm); memset(M[m], 0, sizeof M[m]); cnt[m] = 0;
        } else if (op < 94 && mode) {
            unsigned d = below(NM);
            h_what = "MapClone"; prop = "clone";
            if (d == m || typed[d] != typed[m]) d = m ^ 2;
            walk(m, "original before cloning");
            if (below(2)) h_brink();
            nm = typed[m] ? (GGC_Map) BoxMapClone((BoxMap) mp(m)) : GGC_MapClone(mp(m));
            CHECK(nm && nm != mp(m), "clone is the original");
            if (GGC_RD(nm, size)) CHECK(GGC_RP(nm, entries) != GGC_RP(mp(m), entries), "clone shares the original's table");
            GGC_WAP(maps, d, nm);
            memcpy(M[d], M[m], sizeof M[m]); cnt[d] = cnt[m];
            walk(m, "original after cloning");
            walk(d, "clone");
            get(d, id); get(m, id);
        } else { h_what = "audit"; for (i = 0; i < NM; i++) walk(i, "audit"); }
        if (nk < 20) for (i = 0; i < NM; i++) walk(i, h_what);
    }
    for (i = 0; i < NM; i++) walk(i, "end");
    printf("ok steps %lu keys %u collections inside hash/cmp %u\n", steps, nk, collects);
    return 0;
}
