/* Concrete contracts of the C++ pointer wrappers (C21).  args: seed steps */
#include "h.h"
GGC_TYPE(Node)
    GGC_MDATA(char, c1);
    GGC_MPTR(Node, next);
    GGC_MDATA(int, i);
    GGC_MDATA(short, s);
    GGC_MPTR(Node, other);
    GGC_MDATA(ggc_size_t, id);
    GGC_MDATA(double, d);
    GGC_MPTR(NodeArray, arr);
GGC_END_TYPE(Node, GGC_PTR(Node, next) GGC_PTR(Node, other) GGC_PTR(Node, arr))

#define NW 7
#define MAXN 4000
struct M { int i; short s; char c; double d; W next, other; W arr; };
struct A { W n; W *e; };
static M md[MAXN]; static W nM;     /* id 0: null */
static A am[MAXN]; static W nA;     /* 0: null */
static W wid[NW];                   /* what the wrappers hold in the model */
static GGC<Node> *ws[NW];
static struct hmap a2id; static W *q, nq; static void **id2a;

static void visitArr(NodeArray a, W k);
static void visit(Node n, W id, const char *what) {
    CHECK((n == NULL) == (id == 0), "%s: %s where %s is expected", what, n ? "an object" : "null", id ? "an object" : "null");
    if (!n) return;
    CHECK(h_poolof((void *) n, NULL), "%s: reference outside the heap", what);
    if (id2a[id]) { CHECK(id2a[id] == (void *) n, "%s: one object has two copies", what); return; }
    id2a[id] = (void *) n;
    CHECK((void *) n->header.descriptor__ptr == (void *) Node__descriptorSlot.descriptor, "%s: object lost its type", what);
    CHECK(n->id__data == id, "%s: other object (%lu instead of %lu)", what, (unsigned long) n->id__data, (unsigned long) id);
    CHECK(n->i__data == md[id].i && n->s__data == md[id].s && n->c1__data == md[id].c && n->d__data == md[id].d, "%s: data members differ", what);
    q[nq++] = id;
}
static void visitArr(NodeArray a, W k) {
    W i;
    CHECK((a == NULL) == (k == 0), "member array null or not");
    if (!a) return;
    CHECK(a->length == am[k].n, "array length differs");
    for (i = 0; i < am[k].n; i++) visit(a->a__ptrs[i], am[k].e[i], "array element");
}
static void checkall() {
    W i;
    memset(id2a, 0, MAXN*sizeof *id2a); nq = 0;
    for (i = 0; i < NW; i++) visit(ws[i]->get(), wid[i], "wrapper");
    for (i = 0; i < nq; i++) {
        Node n = (Node) id2a[q[i]];
        visit(n->next__ptr, md[q[i]].next, "member next");
        visit(n->other__ptr, md[q[i]].other, "member other");
        visitArr(n->arr__ptr, md[q[i]].arr);
    }
}
static Node mk() {
    Node n = GGC_NEW(Node);
    W id = ++nM;
    memset(&md[id], 0, sizeof md[id]);
    n->id__data = id;
    return n;
}
static void gc() {
    switch (below(4)) { case 0: ggggc_collect0(0); break; case 1: ggggc_collect(); break; case 2: ggggc_collect0((unsigned char) below(GGGGC_GENERATIONS)); break; default: { W k = below(30); while (k--) GGC_NEW(Node)->id__data = (W) -1; } }
}
static W live(Node n) { return n ? (W) n->id__data : 0; }

/* every way to construct and assign; the wrapper is a root from then on, and
 * its end removes exactly its own registration */
static void scope(int depth) {
    struct GGGGC_PointerStack *before = ggggc_pointerStack;
    {
        int j = (int) below(NW);
        GGC<Node> a;
        CHECK(a.get() == NULL && !a && !(bool) a, "default-constructed wrapper is not null");
        CHECK(ggggc_pointerStack != before && ggggc_pointerStack->next == before, "wrapper did not register itself alone");
        GGC<Node> b(ws[j]->get());
        CHECK(b.get() == ws[j]->get() && b == *ws[j] && b == ws[j]->get(), "wrapper constructed from a pointer holds something else");
        GGC<Node> c(*ws[j]);
        CHECK(c.get() == ws[j]->get(), "copied wrapper holds something else");
        GGC<Node> d = mk();
        W did = nM; md[did].i = 17 + (int) did; d->i = 17 + (int) did;
        GGCPA<Node, NodeArray> pa = GGC_NEW_PA(Node, 5);
        GGCPA<Node, NodeArray> pb(pa);
        GGCPA<Node, NodeArray> pc;
        GGC<NodeArray> ga(pa.GGC<NodeArray>::get());
        GGCPA<Node, NodeArray> pd(ga);
        GGCDA<int, GGC_int_Array> ia = GGC_NEW_DA(int, 9);
        GGCDA<int, GGC_int_Array> ib;
        CHECK(!pc && !ib, "default-constructed array wrapper is not null");
        CHECK(pb == pa && pd == pa, "copied array wrapper holds something else");
        int k;
        for (k = 0; k < 9; k++) { CHECK(ia[k] == 0, "fresh array element"); int v = 100*k + 3; const int &r = ia.put(k, v); CHECK(r == v, "put returns something else"); }
        pa.put(3, d);
        h_what = "wrappers after a collection";
        gc();
        CHECK(!a, "null wrapper changed");
        CHECK(live(b) == wid[j] && live(c) == wid[j], "wrapper lost its object");
        CHECK(b == *ws[j] && c == *ws[j], "wrappers of one object disagree");
        CHECK(live(d) == did && (int) d->i == 17 + (int) did, "wrapper lost its new object");
        CHECK(pb == pa && pd == pa && pa.get(3) == d.get() && pa[3] == d.get() && pb[3] == d.get(), "array wrapper lost its elements");
        for (k = 0; k < 5; k++) if (k != 3) CHECK(pa[k] == NULL, "array element %d changed", k);
        for (k = 0; k < 9; k++) CHECK(ia[k] == 100*k + 3 && ia.get(k) == 100*k + 3, "data array element %d changed", k);
        ib = ia; pc = pa; a = d;
        CHECK(ib == ia && pc == pa && a == d, "assigned wrapper holds something else");
        CHECK((bool) a && !!a, "wrapper of an object says it is null");
        a = d.get(); { GGC<Node> &r = a; a = r; }
        CHECK(a == d, "assignment of a pointer or of itself");
        ia = GGC_NEW_DA(int, 2); pa = (NodeArray) NULL; d = (Node) NULL;
        h_what = "assigned wrappers after a collection";
        if (depth) { struct GGGGC_PointerStack *b4 = ggggc_pointerStack; scope(depth - 1); CHECK(ggggc_pointerStack == b4, "after an early return other variables are registered than before"); }
        gc();
        CHECK(live(a) == did && !d && !pa && pc[3] == a.get(), "assigned wrapper lost its object");
        for (k = 0; k < 9; k++) CHECK(ib[k] == 100*k + 3, "assigned data array wrapper lost its elements");
        CHECK(ia[0] == 0 && ia[1] == 0, "new data array");
        if (below(5) == 0) return;
        { Node &raw = a; raw = ws[j]->get(); CHECK(a == *ws[j], "wrapper's reference is not its pointer"); }
        if (below(2)) { GGC<Node> e(a); gc(); CHECK(live(e) == wid[j], "wrapper lost its object"); }
        CHECK(live(a) == wid[j], "wrapper lost its object");
    }
    CHECK(ggggc_pointerStack == before, "after the end of the wrappers other variables are registered than before");
}
static Node pass(GGC<Node> x) { gc(); return x.get(); }

int main(int argc, char **argv) {
    W n = argc > 2 ? strtoul(argv[2], 0, 10) : 500, i, j;
    h_seed(argc > 1 ? strtoul(argv[1], 0, 10) : 1);
    q = (W *) malloc(MAXN*sizeof *q); id2a = (void **) malloc(MAXN*sizeof *id2a);
    struct GGGGC_PointerStack *before = ggggc_pointerStack;
    {
    GGC<Node> w[NW];
    for (i = 0; i < NW; i++) ws[i] = &w[i];
    for (h_step = 0; h_step < n && nM < MAXN - 20 && nA < MAXN - 2; h_step++) {
        i = below(NW); j = below(NW);
        switch (below(14)) {
            case 0: case 1: w[i] = mk(); wid[i] = nM; h_what = "new"; break;
            case 2: w[i] = w[j]; wid[i] = wid[j]; h_what = "assign"; break;
            case 3: if (!w[i]) break; w[i]->next = w[j]; md[wid[i]].next = wid[j]; h_what = "write next"; CHECK((Node) w[i]->next == w[j].get(), "member next read back"); break;
            case 4: if (!w[i]) break; w[i]->other = w[j]; md[wid[i]].other = wid[j]; h_what = "write other"; CHECK((Node) w[i]->other == w[j].get(), "member other read back"); break;
            case 5: if (!w[i]) break; { Node t = w[i]->next; w[j] = t; wid[j] = md[wid[i]].next; h_what = "read next"; } break;
            case 6: if (!w[i]) break; { int v = (int) rnd(); w[i]->i = v; md[wid[i]].i = v; CHECK((int) w[i]->i == v, "member i read back"); } break;
            case 7: if (!w[i]) break; { short v = (short) rnd(); w[i]->s = v; md[wid[i]].s = v; CHECK((short) w[i]->s == v, "member s read back"); } { char v = (char) rnd(); w[i]->c1 = v; md[wid[i]].c = v; CHECK((char) w[i]->c1 == v, "member c1 read back"); } break;
            case 8: if (!w[i]) break; { double v = (double) below(1000000)/7; w[i]->d = v; md[wid[i]].d = v; CHECK((double) w[i]->d == v, "member d read back"); } break;
            case 9: if (!w[i]) break; {
                h_what = "array member";
                W len = below(below(4) ? 8 : 300) + 1, k;
                GGCPA<Node, NodeArray> pa = GGC_NEW_PA(Node, len);
                am[++nA].n = len; am[nA].e = (W *) calloc(len, sizeof(W));
                w[i]->arr = pa; md[wid[i]].arr = nA;
                break;
            }
            case 10: if (!w[i] || !md[wid[i]].arr) break; {
                h_what = "array element";
                GGCPA<Node, NodeArray> pa((NodeArray) w[i]->arr);
                struct A *a = &am[md[wid[i]].arr]; W k = below(a->n);
                pa.put(k, w[j]); a->e[k] = wid[j];
                CHECK(pa[k] == w[j].get() && pa.get(k) == w[j].get(), "array element read back");
                if (below(2)) { k = below(a->n); w[j] = pa[k]; wid[j] = a->e[k]; }
                break;
            }
            case 11: h_what = "scope"; scope((int) below(3)); break;
            case 12: h_what = "argument"; { Node t = pass(w[i]); CHECK(t == w[i].get(), "passed wrapper lost its object"); } break;
            default: h_what = "collection"; gc(); break;
        }
        if (below(6) == 0) { const char *o = h_what; gc(); h_what = o; }
        checkall();
        if (below(40) == 0) { w[i] = (Node) NULL; wid[i] = 0; }
    }
    }
    CHECK(ggggc_pointerStack == before, "after the end of all wrappers other variables are registered than before");
    printf("ok cxx %lu nodes\n", (unsigned long) nM);
    return 0;
}
