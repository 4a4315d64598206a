/* Model-based exploration of the list contracts (C12): the same operations on
 * real lists and on plain sequences, with collections in between. */
#include "h.h"
#include "ggggc/collections/list.h"
#undef W
GGC_TYPE(Box)
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(void *, self);
GGC_END_TYPE(Box, GGC_PTR(Box, self))
GGC_LIST(Box)
#define NL 6
#define MAXE 4000
#define NB 64
static int M[NL][MAXE]; static unsigned L[NL];
static GGC_List l0, l1, l2; static BoxList l3, l4, l5;
static BoxArray boxes;
static GGC_List getl(int i) {
    switch (i) { case 0: return l0; case 1: return l1; case 2: return l2; case 3: return (GGC_List) l3; case 4: return (GGC_List) l4; default: return (GGC_List) l5; }
}
static void setl(int i, GGC_List v) {
    switch (i) { case 0: l0 = v; break; case 1: l1 = v; break; case 2: l2 = v; break; case 3: l3 = (BoxList) v; break; case 4: l4 = (BoxList) v; break; default: l5 = (BoxList) v; }
}
static void *box(int id) { return id < 0 ? NULL : (void *) GGC_RAP(boxes, id); }
static void check(int li) {
    GGC_List l = getl(li);
    GGC_ListNode n, prev = NULL;
    unsigned i = 0;
    CHECK(GGC_RD(l, length) == L[li], "list length is %lu, should be %u", (unsigned long) GGC_RD(l, length), L[li]);
    for (n = GGC_RP(l, head); n; n = GGC_RP(n, next)) {
        void *e = GGC_RP(n, el);
        CHECK(i < L[li], "list has more nodes than its %u elements", L[li]);
        CHECK(e == box(M[li][i]), "list element %u of %u is wrong", i, L[li]);
        CHECK(!e || (int) GGC_RD((Box) e, id) == M[li][i], "list element %u of %u has wrong contents", i, L[li]);
        prev = n; i++;
    }
    CHECK(i == L[li], "list ends after %u of %u elements", i, L[li]);
    CHECK(GGC_RP(l, tail) == prev, "list tail is not its last node (length %u)", L[li]);
}
static GGC_ListNode node(int li, unsigned k) {
    GGC_ListNode n = GGC_RP(getl(li), head);
    while (k--) n = GGC_RP(n, next);
    return n;
}
static void garbage(unsigned n) { while (n--) (void) GGC_NEW(Box); }
int main(int argc, char **argv) {
    unsigned long steps = argc > 2 ? strtoul(argv[2], 0, 10) : 2000;
    unsigned cap = argc > 3 ? strtoul(argv[3], 0, 10) : 40;
    int i;
    Box b = NULL;
    h_seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1);
    GGC_PUSH_8(l0, l1, l2, l3, l4, l5, boxes, b);
    GGC_GLOBALIZE();
    boxes = GGC_NEW_PA(Box, NB);
    for (i = 0; i < NB; i++) { b = GGC_NEW(Box); GGC_WD(b, id, i); GGC_WP(b, self, b); GGC_WAP(boxes, i, b); }
    l0 = GGC_NEW(GGC_List); l1 = GGC_NEW(GGC_List); l2 = GGC_NEW(GGC_List);
    l3 = GGC_NEW(BoxList); l4 = GGC_NEW(BoxList); l5 = GGC_NEW(BoxList);
    for (h_step = 1; h_step <= steps; h_step++) {
        int a = below(NL), c = below(NL), id = (int) below(NB + 4) - 4;
        unsigned k, op = below(20);
        if (id < 0) id = -1;
        if (L[a] > cap && op != 4 && op != 5) op = 5;
        if (!below(3)) h_brink();
        switch (op) {
            case 0: case 1: case 2:
                h_what = "ListPush";
                if (a >= 3) switch (a) { case 3: BoxListPush(l3, (Box) box(id)); break; case 4: BoxListPush(l4, (Box) box(id)); break; default: BoxListPush(l5, (Box) box(id)); }
                else GGC_ListPush(getl(a), box(id));
                M[a][L[a]++] = id;
                break;
            case 3:
                h_what = "ListUnshift";
                if (a == 3) BoxListUnshift(l3, (Box) box(id)); else GGC_ListUnshift(getl(a), box(id));
                memmove(M[a] + 1, M[a], L[a]*sizeof(int)); M[a][0] = id; L[a]++;
                break;
            case 4: case 5: case 6: {
                void *r;
                k = op == 5 ? below(L[a] + 2) : 1;
                h_what = "ListShift";
                while (k--) {
                    r = a == 4 ? (void *) BoxListShift(l4) : GGC_ListShift(getl(a));
                    if (!L[a]) CHECK(r == NULL, "shift from an empty list returned %p", r);
                    else { CHECK(r == box(M[a][0]), "shift returned the wrong element"); memmove(M[a], M[a] + 1, --L[a]*sizeof(int)); }
                    check(a);
                }
                break;
            }
            case 7: case 8:
                if (a == c || L[a] + L[c] > MAXE/2) break;
                h_what = "ListPushList";
                if (a == 3 && c == 5) BoxListPushList(l3, l5); else
                GGC_ListPushList(getl(a), getl(c));
                memcpy(M[a] + L[a], M[c], L[c]*sizeof(int)); L[a] += L[c]; L[c] = 0;
                break;
            case 9: case 10:
                if (a == c || L[a] + L[c] > MAXE/2) break;
                h_what = "ListUnshiftList";
                if (a == 3 && c == 5) BoxListUnshiftList(l3, l5); else
                GGC_ListUnshiftList(getl(a), getl(c));
                memmove(M[a] + L[c], M[a], L[a]*sizeof(int)); memcpy(M[a], M[c], L[c]*sizeof(int)); L[a] += L[c]; L[c] = 0;
                break;
            case 11: case 12:
                if (!L[a]) break;
                k = below(3) ? below(L[a]) : L[a] - 1;
                h_what = k == L[a] - 1 ? "ListInsertAfter at the end" : "ListInsertAfter";
                if (a == 3) BoxListInsertAfter(l3, (BoxListNode) node(a, k), (Box) box(id)); else
                GGC_ListInsertAfter(getl(a), node(a, k), box(id));
                memmove(M[a] + k + 2, M[a] + k + 1, (L[a] - k - 1)*sizeof(int)); M[a][k + 1] = id; L[a]++;
                break;
            case 13: case 14:
                if (!L[a] || a == c || L[a] + L[c] > MAXE/2) break;
                k = below(3) ? below(L[a]) : L[a] - 1;
                h_what = !L[c] ? "ListInsertAfterList of an empty list" : k == L[a] - 1 ? "ListInsertAfterList at the end" : "ListInsertAfterList";
                if (a == 3 && c == 4) BoxListInsertAfterList(l3, (BoxListNode) node(a, k), l4); else
                GGC_ListInsertAfterList(getl(a), node(a, k), getl(c));
                memmove(M[a] + k + 1 + L[c], M[a] + k + 1, (L[a] - k - 1)*sizeof(int)); memcpy(M[a] + k + 1, M[c], L[c]*sizeof(int)); L[a] += L[c]; L[c] = 0;
                break;
            case 15: {
                GGC_voidpArray v;
                h_what = "ListToArray";
                v = a == 5 ? (GGC_voidpArray) BoxListToArray(l5) : GGC_ListToArray(getl(a));
                CHECK(v->length == L[a], "array of a list of %u elements has length %lu", L[a], (unsigned long) v->length);
                for (k = 0; k < L[a]; k++) CHECK(GGC_RAP(v, k) == box(M[a][k]), "array element %u is not the list's", k);
                break;
            }
            case 16: h_what = "collect"; if (!below(8)) ggggc_collect0(0); break;
            case 17: h_what = "full collection"; if (!below(16)) ggggc_collect(); break;
            case 18: h_what = "new list"; if (!below(3)) { if (a < 3) setl(a, GGC_NEW(GGC_List)); else setl(a, (GGC_List) GGC_NEW(BoxList)); L[a] = 0; } break;
            case 19: h_what = "garbage"; garbage(below(400)); break;
        }
        check(a); check(c);
        if (h_step % 16 == 0) for (i = 0; i < NL; i++) check(i);
    }
    for (i = 0; i < NL; i++) check(i);
    printf("ok steps %lu\n", steps);
    return 0;
}
