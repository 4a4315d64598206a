/* Concrete contracts of root registration (C09).  args: seed steps
 * Compiles as C and as C++. */
#include <alloca.h>
#include "h.h"
#define PL(...) __VA_ARGS__
typedef struct Node__h { struct GGGGC_Header header; void *next__ptr; ggc_size_t id__data; } *RawNode;
static struct GGGGC_Descriptor *nodeD;
static W ids;
/* a new node with the next id; the reference is returned unrooted */
static void *mk(void) {
    RawNode r = (RawNode) ggggc_malloc(nodeD);
    r->id__data = ++ids;
    return r;
}
static int alive(void *p, W id) {
    RawNode r = (RawNode) p;
    struct GGGGC_Pool *q = h_poolof(p, NULL);
    if (!q) return 0;
    return r->header.descriptor__ptr == nodeD && r->id__data == id;
}
#define OK(v, id, ...) do { CHECK(alive((v), (id)), __VA_ARGS__); } while (0)
/* variables that were registered once and are no longer */
#define NS 64
static void *S[NS]; static void *Sval[NS]; static char Sst[NS]; /* 0 unused, 1 registered, 2 ended */
/* globalized variables */
#define NG 48
static void *G[NG]; static W Gid[NG]; static W nG;
static W churnN;
static void churn(void) { /* overwrite what is not kept */
    W k = below(churnN) + 1;
    while (k--) { RawNode r = (RawNode) ggggc_malloc(nodeD); r->id__data = (W) -1; }
}
static void gc(void) {
    W i;
    switch (below(5)) {
        case 0: ggggc_collect0(0); break;
        case 1: ggggc_collect(); break;
        case 2: ggggc_collect0((unsigned char) below(GGGGC_GENERATIONS)); break;
        case 3: break;
        default: churn(); break;
    }
    for (i = 0; i < NS; i++) CHECK(Sst[i] != 2 || S[i] == Sval[i], "a variable whose registration has ended was changed by the collector");
    for (i = 0; i < nG; i++) OK(G[i], Gid[i], "globalized variable %lu is not a root", (unsigned long) i);
}
static void any(W depth);

static int t1(W depth) {
    void *v0 = NULL;
    W id[1]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[1]; (void) before; (void) was;
    GGC_PUSH_1(v0);
    h_what = "GGC_PUSH_1";
    v0 = mk(); id[0] = ids;
    #define ALL_t1(what) do { OK(v0, id[0], "variable 1 of 1 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t1("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_1"; ALL_t1("after a call"); }
    gc(); ALL_t1("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t1("later"); }
    return 0;
}
static int m1(W depth) {
    void *v0 = NULL;
    W id[1]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[1]; (void) before; (void) was;
    GGC_PUSH_MANUAL_1(v0);
    h_what = "GGC_PUSH_MANUAL_1";
    v0 = mk(); id[0] = ids;
    #define ALL_m1(what) do { OK(v0, id[0], "variable 1 of 1 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m1("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_1"; ALL_m1("after a call"); }
    gc(); ALL_m1("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m1("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t2(W depth) {
    void *v0 = NULL; void *v1 = NULL;
    W id[2]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[2]; (void) before; (void) was;
    GGC_PUSH_2(v0, v1);
    h_what = "GGC_PUSH_2";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    #define ALL_t2(what) do { OK(v0, id[0], "variable 1 of 2 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 2 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t2("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_2"; ALL_t2("after a call"); }
    gc(); ALL_t2("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t2("later"); }
    return 0;
}
static int m2(W depth) {
    void *v0 = NULL; void *v1 = NULL;
    W id[2]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[2]; (void) before; (void) was;
    GGC_PUSH_MANUAL_2(v0, v1);
    h_what = "GGC_PUSH_MANUAL_2";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    #define ALL_m2(what) do { OK(v0, id[0], "variable 1 of 2 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 2 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m2("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_2"; ALL_m2("after a call"); }
    gc(); ALL_m2("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m2("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t3(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL;
    W id[3]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[3]; (void) before; (void) was;
    GGC_PUSH_3(v0, v1, v2);
    h_what = "GGC_PUSH_3";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    #define ALL_t3(what) do { OK(v0, id[0], "variable 1 of 3 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 3 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 3 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t3("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_3"; ALL_t3("after a call"); }
    gc(); ALL_t3("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t3("later"); }
    return 0;
}
static int m3(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL;
    W id[3]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[3]; (void) before; (void) was;
    GGC_PUSH_MANUAL_3(v0, v1, v2);
    h_what = "GGC_PUSH_MANUAL_3";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    #define ALL_m3(what) do { OK(v0, id[0], "variable 1 of 3 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 3 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 3 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m3("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_3"; ALL_m3("after a call"); }
    gc(); ALL_m3("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m3("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t4(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL;
    W id[4]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[4]; (void) before; (void) was;
    GGC_PUSH_4(v0, v1, v2, v3);
    h_what = "GGC_PUSH_4";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    #define ALL_t4(what) do { OK(v0, id[0], "variable 1 of 4 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 4 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 4 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 4 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t4("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_4"; ALL_t4("after a call"); }
    gc(); ALL_t4("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t4("later"); }
    return 0;
}
static int m4(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL;
    W id[4]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[4]; (void) before; (void) was;
    GGC_PUSH_MANUAL_4(v0, v1, v2, v3);
    h_what = "GGC_PUSH_MANUAL_4";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    #define ALL_m4(what) do { OK(v0, id[0], "variable 1 of 4 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 4 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 4 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 4 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m4("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_4"; ALL_m4("after a call"); }
    gc(); ALL_m4("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m4("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t5(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL;
    W id[5]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[5]; (void) before; (void) was;
    GGC_PUSH_5(v0, v1, v2, v3, v4);
    h_what = "GGC_PUSH_5";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    #define ALL_t5(what) do { OK(v0, id[0], "variable 1 of 5 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 5 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 5 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 5 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 5 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t5("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_5"; ALL_t5("after a call"); }
    gc(); ALL_t5("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t5("later"); }
    return 0;
}
static int m5(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL;
    W id[5]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[5]; (void) before; (void) was;
    GGC_PUSH_MANUAL_5(v0, v1, v2, v3, v4);
    h_what = "GGC_PUSH_MANUAL_5";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    #define ALL_m5(what) do { OK(v0, id[0], "variable 1 of 5 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 5 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 5 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 5 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 5 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m5("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_5"; ALL_m5("after a call"); }
    gc(); ALL_m5("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m5("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t6(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL;
    W id[6]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[6]; (void) before; (void) was;
    GGC_PUSH_6(v0, v1, v2, v3, v4, v5);
    h_what = "GGC_PUSH_6";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    #define ALL_t6(what) do { OK(v0, id[0], "variable 1 of 6 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 6 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 6 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 6 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 6 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 6 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t6("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_6"; ALL_t6("after a call"); }
    gc(); ALL_t6("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t6("later"); }
    return 0;
}
static int m6(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL;
    W id[6]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[6]; (void) before; (void) was;
    GGC_PUSH_MANUAL_6(v0, v1, v2, v3, v4, v5);
    h_what = "GGC_PUSH_MANUAL_6";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    #define ALL_m6(what) do { OK(v0, id[0], "variable 1 of 6 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 6 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 6 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 6 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 6 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 6 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m6("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_6"; ALL_m6("after a call"); }
    gc(); ALL_m6("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m6("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t7(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL;
    W id[7]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[7]; (void) before; (void) was;
    GGC_PUSH_7(v0, v1, v2, v3, v4, v5, v6);
    h_what = "GGC_PUSH_7";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    #define ALL_t7(what) do { OK(v0, id[0], "variable 1 of 7 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 7 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 7 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 7 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 7 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 7 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 7 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t7("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_7"; ALL_t7("after a call"); }
    gc(); ALL_t7("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t7("later"); }
    return 0;
}
static int m7(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL;
    W id[7]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[7]; (void) before; (void) was;
    GGC_PUSH_MANUAL_7(v0, v1, v2, v3, v4, v5, v6);
    h_what = "GGC_PUSH_MANUAL_7";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    #define ALL_m7(what) do { OK(v0, id[0], "variable 1 of 7 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 7 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 7 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 7 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 7 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 7 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 7 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m7("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_7"; ALL_m7("after a call"); }
    gc(); ALL_m7("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m7("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t8(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL;
    W id[8]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[8]; (void) before; (void) was;
    GGC_PUSH_8(v0, v1, v2, v3, v4, v5, v6, v7);
    h_what = "GGC_PUSH_8";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    #define ALL_t8(what) do { OK(v0, id[0], "variable 1 of 8 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 8 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 8 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 8 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 8 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 8 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 8 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 8 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t8("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_8"; ALL_t8("after a call"); }
    gc(); ALL_t8("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t8("later"); }
    return 0;
}
static int m8(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL;
    W id[8]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[8]; (void) before; (void) was;
    GGC_PUSH_MANUAL_8(v0, v1, v2, v3, v4, v5, v6, v7);
    h_what = "GGC_PUSH_MANUAL_8";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    #define ALL_m8(what) do { OK(v0, id[0], "variable 1 of 8 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 8 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 8 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 8 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 8 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 8 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 8 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 8 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m8("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_8"; ALL_m8("after a call"); }
    gc(); ALL_m8("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m8("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t9(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL;
    W id[9]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[9]; (void) before; (void) was;
    GGC_PUSH_9(v0, v1, v2, v3, v4, v5, v6, v7, v8);
    h_what = "GGC_PUSH_9";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    #define ALL_t9(what) do { OK(v0, id[0], "variable 1 of 9 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 9 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 9 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 9 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 9 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 9 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 9 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 9 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 9 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t9("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_9"; ALL_t9("after a call"); }
    gc(); ALL_t9("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t9("later"); }
    return 0;
}
static int m9(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL;
    W id[9]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[9]; (void) before; (void) was;
    GGC_PUSH_MANUAL_9(v0, v1, v2, v3, v4, v5, v6, v7, v8);
    h_what = "GGC_PUSH_MANUAL_9";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    #define ALL_m9(what) do { OK(v0, id[0], "variable 1 of 9 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 9 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 9 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 9 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 9 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 9 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 9 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 9 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 9 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m9("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_9"; ALL_m9("after a call"); }
    gc(); ALL_m9("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m9("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t10(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL;
    W id[10]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[10]; (void) before; (void) was;
    GGC_PUSH_10(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9);
    h_what = "GGC_PUSH_10";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    #define ALL_t10(what) do { OK(v0, id[0], "variable 1 of 10 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 10 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 10 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 10 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 10 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 10 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 10 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 10 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 10 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 10 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t10("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_10"; ALL_t10("after a call"); }
    gc(); ALL_t10("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t10("later"); }
    return 0;
}
static int m10(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL;
    W id[10]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[10]; (void) before; (void) was;
    GGC_PUSH_MANUAL_10(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9);
    h_what = "GGC_PUSH_MANUAL_10";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    #define ALL_m10(what) do { OK(v0, id[0], "variable 1 of 10 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 10 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 10 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 10 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 10 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 10 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 10 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 10 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 10 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 10 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m10("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_10"; ALL_m10("after a call"); }
    gc(); ALL_m10("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m10("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t11(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL;
    W id[11]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[11]; (void) before; (void) was;
    GGC_PUSH_11(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10);
    h_what = "GGC_PUSH_11";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    #define ALL_t11(what) do { OK(v0, id[0], "variable 1 of 11 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 11 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 11 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 11 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 11 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 11 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 11 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 11 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 11 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 11 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 11 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t11("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_11"; ALL_t11("after a call"); }
    gc(); ALL_t11("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t11("later"); }
    return 0;
}
static int m11(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL;
    W id[11]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[11]; (void) before; (void) was;
    GGC_PUSH_MANUAL_11(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10);
    h_what = "GGC_PUSH_MANUAL_11";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    #define ALL_m11(what) do { OK(v0, id[0], "variable 1 of 11 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 11 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 11 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 11 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 11 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 11 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 11 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 11 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 11 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 11 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 11 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m11("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_11"; ALL_m11("after a call"); }
    gc(); ALL_m11("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m11("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t12(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL;
    W id[12]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[12]; (void) before; (void) was;
    GGC_PUSH_12(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11);
    h_what = "GGC_PUSH_12";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    #define ALL_t12(what) do { OK(v0, id[0], "variable 1 of 12 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 12 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 12 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 12 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 12 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 12 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 12 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 12 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 12 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 12 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 12 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 12 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t12("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_12"; ALL_t12("after a call"); }
    gc(); ALL_t12("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t12("later"); }
    return 0;
}
static int m12(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL;
    W id[12]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[12]; (void) before; (void) was;
    GGC_PUSH_MANUAL_12(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11);
    h_what = "GGC_PUSH_MANUAL_12";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    #define ALL_m12(what) do { OK(v0, id[0], "variable 1 of 12 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 12 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 12 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 12 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 12 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 12 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 12 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 12 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 12 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 12 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 12 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 12 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m12("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_12"; ALL_m12("after a call"); }
    gc(); ALL_m12("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m12("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t13(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL;
    W id[13]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[13]; (void) before; (void) was;
    GGC_PUSH_13(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12);
    h_what = "GGC_PUSH_13";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    #define ALL_t13(what) do { OK(v0, id[0], "variable 1 of 13 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 13 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 13 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 13 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 13 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 13 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 13 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 13 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 13 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 13 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 13 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 13 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 13 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t13("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_13"; ALL_t13("after a call"); }
    gc(); ALL_t13("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t13("later"); }
    return 0;
}
static int m13(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL;
    W id[13]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[13]; (void) before; (void) was;
    GGC_PUSH_MANUAL_13(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12);
    h_what = "GGC_PUSH_MANUAL_13";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    #define ALL_m13(what) do { OK(v0, id[0], "variable 1 of 13 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 13 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 13 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 13 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 13 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 13 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 13 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 13 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 13 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 13 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 13 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 13 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 13 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m13("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_13"; ALL_m13("after a call"); }
    gc(); ALL_m13("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m13("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t14(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL; void *v13 = NULL;
    W id[14]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[14]; (void) before; (void) was;
    GGC_PUSH_14(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13);
    h_what = "GGC_PUSH_14";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    v13 = mk(); id[13] = ids;
    #define ALL_t14(what) do { OK(v0, id[0], "variable 1 of 14 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 14 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 14 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 14 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 14 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 14 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 14 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 14 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 14 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 14 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 14 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 14 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 14 pushed variables is not a root (" what ")"); OK(v13, id[13], "variable 14 of 14 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t14("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_14"; ALL_t14("after a call"); }
    gc(); ALL_t14("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t14("later"); }
    return 0;
}
static int m14(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL; void *v13 = NULL;
    W id[14]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[14]; (void) before; (void) was;
    GGC_PUSH_MANUAL_14(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13);
    h_what = "GGC_PUSH_MANUAL_14";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    v13 = mk(); id[13] = ids;
    #define ALL_m14(what) do { OK(v0, id[0], "variable 1 of 14 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 14 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 14 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 14 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 14 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 14 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 14 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 14 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 14 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 14 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 14 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 14 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 14 pushed variables is not a root (" what ")"); OK(v13, id[13], "variable 14 of 14 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m14("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_14"; ALL_m14("after a call"); }
    gc(); ALL_m14("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m14("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t15(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL; void *v13 = NULL; void *v14 = NULL;
    W id[15]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[15]; (void) before; (void) was;
    GGC_PUSH_15(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14);
    h_what = "GGC_PUSH_15";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    v13 = mk(); id[13] = ids;
    v14 = mk(); id[14] = ids;
    #define ALL_t15(what) do { OK(v0, id[0], "variable 1 of 15 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 15 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 15 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 15 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 15 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 15 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 15 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 15 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 15 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 15 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 15 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 15 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 15 pushed variables is not a root (" what ")"); OK(v13, id[13], "variable 14 of 15 pushed variables is not a root (" what ")"); OK(v14, id[14], "variable 15 of 15 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t15("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_15"; ALL_t15("after a call"); }
    gc(); ALL_t15("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t15("later"); }
    return 0;
}
static int m15(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL; void *v13 = NULL; void *v14 = NULL;
    W id[15]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[15]; (void) before; (void) was;
    GGC_PUSH_MANUAL_15(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14);
    h_what = "GGC_PUSH_MANUAL_15";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    v13 = mk(); id[13] = ids;
    v14 = mk(); id[14] = ids;
    #define ALL_m15(what) do { OK(v0, id[0], "variable 1 of 15 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 15 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 15 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 15 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 15 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 15 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 15 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 15 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 15 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 15 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 15 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 15 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 15 pushed variables is not a root (" what ")"); OK(v13, id[13], "variable 14 of 15 pushed variables is not a root (" what ")"); OK(v14, id[14], "variable 15 of 15 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m15("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_15"; ALL_m15("after a call"); }
    gc(); ALL_m15("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m15("later"); }
    GGC_POP_MANUAL();
    return 0;
}
static int t16(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL; void *v13 = NULL; void *v14 = NULL; void *v15 = NULL;
    W id[16]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[16]; (void) before; (void) was;
    GGC_PUSH_16(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15);
    h_what = "GGC_PUSH_16";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    v13 = mk(); id[13] = ids;
    v14 = mk(); id[14] = ids;
    v15 = mk(); id[15] = ids;
    #define ALL_t16(what) do { OK(v0, id[0], "variable 1 of 16 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 16 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 16 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 16 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 16 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 16 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 16 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 16 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 16 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 16 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 16 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 16 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 16 pushed variables is not a root (" what ")"); OK(v13, id[13], "variable 14 of 16 pushed variables is not a root (" what ")"); OK(v14, id[14], "variable 15 of 16 pushed variables is not a root (" what ")"); OK(v15, id[15], "variable 16 of 16 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_t16("before calls");
    if (below(4) == 0) return 1;
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_16"; ALL_t16("after a call"); }
    gc(); ALL_t16("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_t16("later"); }
    return 0;
}
static int m16(W depth) {
    void *v0 = NULL; void *v1 = NULL; void *v2 = NULL; void *v3 = NULL; void *v4 = NULL; void *v5 = NULL; void *v6 = NULL; void *v7 = NULL; void *v8 = NULL; void *v9 = NULL; void *v10 = NULL; void *v11 = NULL; void *v12 = NULL; void *v13 = NULL; void *v14 = NULL; void *v15 = NULL;
    W id[16]; int i; struct GGGGC_PointerStack *before = ggggc_pointerStack; void *was[16]; (void) before; (void) was;
    GGC_PUSH_MANUAL_16(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15);
    h_what = "GGC_PUSH_MANUAL_16";
    v0 = mk(); id[0] = ids;
    v1 = mk(); id[1] = ids;
    v2 = mk(); id[2] = ids;
    v3 = mk(); id[3] = ids;
    v4 = mk(); id[4] = ids;
    v5 = mk(); id[5] = ids;
    v6 = mk(); id[6] = ids;
    v7 = mk(); id[7] = ids;
    v8 = mk(); id[8] = ids;
    v9 = mk(); id[9] = ids;
    v10 = mk(); id[10] = ids;
    v11 = mk(); id[11] = ids;
    v12 = mk(); id[12] = ids;
    v13 = mk(); id[13] = ids;
    v14 = mk(); id[14] = ids;
    v15 = mk(); id[15] = ids;
    #define ALL_m16(what) do { OK(v0, id[0], "variable 1 of 16 pushed variables is not a root (" what ")"); OK(v1, id[1], "variable 2 of 16 pushed variables is not a root (" what ")"); OK(v2, id[2], "variable 3 of 16 pushed variables is not a root (" what ")"); OK(v3, id[3], "variable 4 of 16 pushed variables is not a root (" what ")"); OK(v4, id[4], "variable 5 of 16 pushed variables is not a root (" what ")"); OK(v5, id[5], "variable 6 of 16 pushed variables is not a root (" what ")"); OK(v6, id[6], "variable 7 of 16 pushed variables is not a root (" what ")"); OK(v7, id[7], "variable 8 of 16 pushed variables is not a root (" what ")"); OK(v8, id[8], "variable 9 of 16 pushed variables is not a root (" what ")"); OK(v9, id[9], "variable 10 of 16 pushed variables is not a root (" what ")"); OK(v10, id[10], "variable 11 of 16 pushed variables is not a root (" what ")"); OK(v11, id[11], "variable 12 of 16 pushed variables is not a root (" what ")"); OK(v12, id[12], "variable 13 of 16 pushed variables is not a root (" what ")"); OK(v13, id[13], "variable 14 of 16 pushed variables is not a root (" what ")"); OK(v14, id[14], "variable 15 of 16 pushed variables is not a root (" what ")"); OK(v15, id[15], "variable 16 of 16 pushed variables is not a root (" what ")"); } while (0)
    gc(); ALL_m16("before calls");
    if (below(4) == 0) { GGC_POP_MANUAL(); return 1; }
    if (depth) { any(depth - 1); h_what = "GGC_PUSH_MANUAL_16"; ALL_m16("after a call"); }
    gc(); ALL_m16("after calls");
    for (i = 0; i < 2 && depth && below(2); i++) { any(below(depth)); gc(); ALL_m16("later"); }
    GGC_POP_MANUAL();
    return 0;
}
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
static int n1(W depth) {
    void *v[1]; W id[1]; int i;
    for (i = 0; i < 1; i++) v[i] = NULL;
    { GGC_PUSH_N(1, PL({&v[0]}));
    h_what = "GGC_PUSH_N";
    for (i = 0; i < 1; i++) { v[i] = mk(); id[i] = ids; }
    gc(); for (i = 0; i < 1; i++) OK(v[i], id[i], "variable %d of 1 variables pushed with GGC_PUSH_N is not a root", i + 1);
    if (depth && below(3)) { any(depth - 1); h_what = "GGC_PUSH_N"; }
    gc(); for (i = 0; i < 1; i++) OK(v[i], id[i], "variable %d of 1 variables pushed with GGC_PUSH_N is not a root", i + 1);
    }
    return 0;
}
#endif
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
static int n2(W depth) {
    void *v[2]; W id[2]; int i;
    for (i = 0; i < 2; i++) v[i] = NULL;
    { GGC_PUSH_N(2, PL({&v[0], &v[1]}));
    h_what = "GGC_PUSH_N";
    for (i = 0; i < 2; i++) { v[i] = mk(); id[i] = ids; }
    gc(); for (i = 0; i < 2; i++) OK(v[i], id[i], "variable %d of 2 variables pushed with GGC_PUSH_N is not a root", i + 1);
    if (depth && below(3)) { any(depth - 1); h_what = "GGC_PUSH_N"; }
    gc(); for (i = 0; i < 2; i++) OK(v[i], id[i], "variable %d of 2 variables pushed with GGC_PUSH_N is not a root", i + 1);
    }
    return 0;
}
#endif
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
static int n3(W depth) {
    void *v[3]; W id[3]; int i;
    for (i = 0; i < 3; i++) v[i] = NULL;
    { GGC_PUSH_N(3, PL({&v[0], &v[1], &v[2]}));
    h_what = "GGC_PUSH_N";
    for (i = 0; i < 3; i++) { v[i] = mk(); id[i] = ids; }
    gc(); for (i = 0; i < 3; i++) OK(v[i], id[i], "variable %d of 3 variables pushed with GGC_PUSH_N is not a root", i + 1);
    if (depth && below(3)) { any(depth - 1); h_what = "GGC_PUSH_N"; }
    gc(); for (i = 0; i < 3; i++) OK(v[i], id[i], "variable %d of 3 variables pushed with GGC_PUSH_N is not a root", i + 1);
    }
    return 0;
}
#endif
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
static int n7(W depth) {
    void *v[7]; W id[7]; int i;
    for (i = 0; i < 7; i++) v[i] = NULL;
    { GGC_PUSH_N(7, PL({&v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6]}));
    h_what = "GGC_PUSH_N";
    for (i = 0; i < 7; i++) { v[i] = mk(); id[i] = ids; }
    gc(); for (i = 0; i < 7; i++) OK(v[i], id[i], "variable %d of 7 variables pushed with GGC_PUSH_N is not a root", i + 1);
    if (depth && below(3)) { any(depth - 1); h_what = "GGC_PUSH_N"; }
    gc(); for (i = 0; i < 7; i++) OK(v[i], id[i], "variable %d of 7 variables pushed with GGC_PUSH_N is not a root", i + 1);
    }
    return 0;
}
#endif
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
static int n20(W depth) {
    void *v[20]; W id[20]; int i;
    for (i = 0; i < 20; i++) v[i] = NULL;
    { GGC_PUSH_N(20, PL({&v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], &v[8], &v[9], &v[10], &v[11], &v[12], &v[13], &v[14], &v[15], &v[16], &v[17], &v[18], &v[19]}));
    h_what = "GGC_PUSH_N";
    for (i = 0; i < 20; i++) { v[i] = mk(); id[i] = ids; }
    gc(); for (i = 0; i < 20; i++) OK(v[i], id[i], "variable %d of 20 variables pushed with GGC_PUSH_N is not a root", i + 1);
    if (depth && below(3)) { any(depth - 1); h_what = "GGC_PUSH_N"; }
    gc(); for (i = 0; i < 20; i++) OK(v[i], id[i], "variable %d of 20 variables pushed with GGC_PUSH_N is not a root", i + 1);
    }
    return 0;
}
#endif
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
static int n40(W depth) {
    void *v[40]; W id[40]; int i;
    for (i = 0; i < 40; i++) v[i] = NULL;
    { GGC_PUSH_N(40, PL({&v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7], &v[8], &v[9], &v[10], &v[11], &v[12], &v[13], &v[14], &v[15], &v[16], &v[17], &v[18], &v[19], &v[20], &v[21], &v[22], &v[23], &v[24], &v[25], &v[26], &v[27], &v[28], &v[29], &v[30], &v[31], &v[32], &v[33], &v[34], &v[35], &v[36], &v[37], &v[38], &v[39]}));
    h_what = "GGC_PUSH_N";
    for (i = 0; i < 40; i++) { v[i] = mk(); id[i] = ids; }
    gc(); for (i = 0; i < 40; i++) OK(v[i], id[i], "variable %d of 40 variables pushed with GGC_PUSH_N is not a root", i + 1);
    if (depth && below(3)) { any(depth - 1); h_what = "GGC_PUSH_N"; }
    gc(); for (i = 0; i < 40; i++) OK(v[i], id[i], "variable %d of 40 variables pushed with GGC_PUSH_N is not a root", i + 1);
    }
    return 0;
}
#endif
static int g1(W depth) { /* globalize 1 variables */
    W b = nG, i; void *loc = NULL; W lid; (void) i;
    if (nG + 1 > NG) return 0;
    GGC_PUSH_1(loc);
    loc = mk(); lid = ids;
    {
        GGC_PUSH_1(G[b + 0]);
        GGC_GLOBALIZE();
        for (i = 0; i < 1; i++) { G[b + i] = mk(); Gid[b + i] = ids; nG = b + i + 1; }
        h_what = "inside the scope of a globalized push"; gc();
        if (depth && below(2)) any(depth - 1);
        OK(loc, lid, "globalizing disturbed an earlier registration");
    }
    h_what = "after the scope of a globalized push"; gc(); churn(); gc();
    OK(loc, lid, "globalizing disturbed an earlier registration");
    return 0;
}
static int g2(W depth) { /* globalize 2 variables */
    W b = nG, i; void *loc = NULL; W lid; (void) i;
    if (nG + 2 > NG) return 0;
    GGC_PUSH_1(loc);
    loc = mk(); lid = ids;
    {
        GGC_PUSH_2(G[b + 0], G[b + 1]);
        GGC_GLOBALIZE();
        for (i = 0; i < 2; i++) { G[b + i] = mk(); Gid[b + i] = ids; nG = b + i + 1; }
        h_what = "inside the scope of a globalized push"; gc();
        if (depth && below(2)) any(depth - 1);
        OK(loc, lid, "globalizing disturbed an earlier registration");
    }
    h_what = "after the scope of a globalized push"; gc(); churn(); gc();
    OK(loc, lid, "globalizing disturbed an earlier registration");
    return 0;
}
static int g3(W depth) { /* globalize 3 variables */
    W b = nG, i; void *loc = NULL; W lid; (void) i;
    if (nG + 3 > NG) return 0;
    GGC_PUSH_1(loc);
    loc = mk(); lid = ids;
    {
        GGC_PUSH_3(G[b + 0], G[b + 1], G[b + 2]);
        GGC_GLOBALIZE();
        for (i = 0; i < 3; i++) { G[b + i] = mk(); Gid[b + i] = ids; nG = b + i + 1; }
        h_what = "inside the scope of a globalized push"; gc();
        if (depth && below(2)) any(depth - 1);
        OK(loc, lid, "globalizing disturbed an earlier registration");
    }
    h_what = "after the scope of a globalized push"; gc(); churn(); gc();
    OK(loc, lid, "globalizing disturbed an earlier registration");
    return 0;
}
static int g5(W depth) { /* globalize 5 variables */
    W b = nG, i; void *loc = NULL; W lid; (void) i;
    if (nG + 5 > NG) return 0;
    GGC_PUSH_1(loc);
    loc = mk(); lid = ids;
    {
        GGC_PUSH_5(G[b + 0], G[b + 1], G[b + 2], G[b + 3], G[b + 4]);
        GGC_GLOBALIZE();
        for (i = 0; i < 5; i++) { G[b + i] = mk(); Gid[b + i] = ids; nG = b + i + 1; }
        h_what = "inside the scope of a globalized push"; gc();
        if (depth && below(2)) any(depth - 1);
        OK(loc, lid, "globalizing disturbed an earlier registration");
    }
    h_what = "after the scope of a globalized push"; gc(); churn(); gc();
    OK(loc, lid, "globalizing disturbed an earlier registration");
    return 0;
}
static int st(W depth) { /* registrations end with their scope */
    W b = 2*below(NS/2), k;
    if (Sst[b] == 1) return 0;
    S[b] = S[b + 1] = NULL;
    Sst[b] = Sst[b + 1] = 1;
    { GGC_PUSH_2(S[b], S[b + 1]);
      S[b] = mk(); S[b + 1] = mk(); k = ids;
      h_what = "static variables pushed";
      gc();
      OK(S[b], k - 1, "variable 1 of 2 pushed variables is not a root (static)");
      OK(S[b + 1], k, "variable 2 of 2 pushed variables is not a root (static)");
      if (depth && below(2)) { any(depth - 1); gc(); }
      OK(S[b], k - 1, "variable 1 of 2 pushed variables is not a root (static)");
      OK(S[b + 1], k, "variable 2 of 2 pushed variables is not a root (static)");
    }
    Sval[b] = S[b]; Sval[b + 1] = S[b + 1];
    Sst[b] = Sst[b + 1] = 2;
    h_what = "after the end of a scope";
    gc(); churn(); gc();
    return 0;
}
typedef int (*fn)(W);
static fn F[] = { t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15, t16, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, g1, g2, g3, g5, st, st, st
#if defined(GGC_PUSH_N) && !defined(__cplusplus)
, n1, n2, n3, n7, n20, n40
#endif
};
static void any(W depth) {
    struct GGGGC_PointerStack *before = ggggc_pointerStack;
    F[below(sizeof F/sizeof *F)](depth);
    CHECK(ggggc_pointerStack == before, "after the end of a function other variables are registered than before it");
}
int main(int argc, char **argv) {
    W n = argc > 2 ? strtoul(argv[2], 0, 10) : 300, i;
    static void *keep; W kid;
    h_seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1);
    churnN = 40;
    {
        GGC_PUSH_2(nodeD, keep);
        GGC_GLOBALIZE();
        nodeD = ggggc_allocateDescriptor(HW + 2, 1 | (W) 1 << HW);
        keep = mk(); kid = ids;
    }
    for (i = 0; i < n; i++) { h_step = i; any(below(4)); gc(); OK(keep, kid, "a variable globalized at the start is not a root"); }
    {
        GGC_PUSH_1(keep); /* a first registration below main's globals */
        keep = keep;
    }
    for (i = 0; i < n; i++) { h_step = n + i; any(below(4)); gc(); OK(keep, kid, "a variable globalized at the start is not a root"); }
    printf("ok roots %lu\n", (unsigned long) ids);
    return 0;
}
