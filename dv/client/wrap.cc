/* client code of the C++ pointer wrappers; see contracts/client.py.
 * scope(n, p...): exactly the variables at p... are registered (a collection may follow);
 * same(p, q): p is a current reference to the object q; truth(b, c): b is c. */
#include "types.h"
extern "C" {
void scope(int n, ...);
int choose(void);
void same(void *a, void *b);
void truth(int a, int b);

void w_value(Node n) {
    GGC<Node> a(n);
    scope(1, &a.ptr);
    same(a.get(), n);
    same(a.ptr, n);
    same(a, n);
    scope(1, &a.ptr);
}
void w_implicit(Node n) {
    GGC<Node> a = n;
    scope(1, &a.ptr);
    same(a.get(), n);
}
void w_copy(Node n) {
    GGC<Node> a(n);
    GGC<Node> b(a);
    scope(2, &a.ptr, &b.ptr);
    same(b.get(), n);
    same(a.get(), n);
    GGC<Node> c = b;
    scope(3, &a.ptr, &b.ptr, &c.ptr);
    same(c.get(), n);
    same(b.get(), n);
}
void w_default(void) {
    GGC<Node> a;
    scope(1, &a.ptr);
    same(a.get(), NULL);
}
void w_assign(Node n, Node k) {
    GGC<Node> b(k), a;
    a = n;
    same(a.get(), n);
    scope(2, &a.ptr, &b.ptr);
    same(a.get(), n);
    same(b.get(), k);
    a = b;
    same(a.get(), k);
    scope(2, &a.ptr, &b.ptr);
    same(a.get(), k);
    same(b.get(), k);
    a = a;
    scope(2, &a.ptr, &b.ptr);
    same(a.get(), k);
}
void w_chain(Node n, Node k) {
    GGC<Node> b(k), a, c;
    a = c = n;
    scope(3, &a.ptr, &b.ptr, &c.ptr);
    same(a.get(), n); same(c.get(), n);
    c = a = b;
    scope(3, &a.ptr, &b.ptr, &c.ptr);
    same(a.get(), k); same(c.get(), k); same(b.get(), k);
}
void w_reference(Node n, Node k) {
    GGC<Node> a(n), b(k);
    Node &r = a;
    scope(2, &a.ptr, &b.ptr);
    r = b;
    same(a.get(), k);
    scope(2, &a.ptr, &b.ptr);
    same(r, k);
}
void w_compare(Node n, Node k) {
    bool eq = n == k, nn = n != NULL;
    GGC<Node> a(n), b(k);
    truth(a == k, eq);
    truth(a == b, eq);
    truth(!a, !nn);
    truth((bool) a, nn);
    scope(2, &a.ptr, &b.ptr);
    truth(a == b, eq);
    truth(!a, !nn);
}
void w_exits(Node n) {
    GGC<Node> a(n);
    scope(1, &a.ptr);
    if (choose()) {
        GGC<Node> b(a), c;
        scope(3, &a.ptr, &b.ptr, &c.ptr);
        if (choose()) return;
        {
            GGC<Node> d(b);
            scope(4, &a.ptr, &b.ptr, &c.ptr, &d.ptr);
            if (choose()) return;
        }
        scope(3, &a.ptr, &b.ptr, &c.ptr);
    }
    scope(1, &a.ptr);
    same(a.get(), n);
}
static Node pass(GGC<Node> x) {
    if (choose()) return x;
    return x.get();
}
void w_pass(Node n, Node k) {
    GGC<Node> a(n), b(k);
    /* (a temporary wrapper must not outlive one constructed after it) */
    Node r = pass(a);
    GGC<Node> c(r);
    scope(3, &a.ptr, &b.ptr, &c.ptr);
    same(c.get(), n);
    c = pass(b);
    scope(3, &a.ptr, &b.ptr, &c.ptr);
    same(c.get(), k);
    same(a.get(), n);
    same(b.get(), k);
}
void w_mixed(Node n, Node k) {
    Node p = k;
    GGC<Node> a(n);
    GGC_PUSH_1(p);
    GGC<Node> b(p);
    scope(3, &a.ptr, &p, &b.ptr);
    same(a.get(), n);
    same(p, k);
    same(b.get(), k);
}
void pa_registers(NodeArray x, NodeArray y) {
    GGCPA<Node, NodeArray> a(x), e;
    GGC<NodeArray> b(y);
    GGCPA<Node, NodeArray> c(b), d(a);
    scope(5, &a.ptr, &b.ptr, &c.ptr, &d.ptr, &e.ptr);
    same(a.GGC<NodeArray>::get(), x); same(b.get(), y); same(c.GGC<NodeArray>::get(), y); same(d.GGC<NodeArray>::get(), x);
    same(e.GGC<NodeArray>::get(), NULL);
    e = b;
    scope(5, &a.ptr, &b.ptr, &c.ptr, &d.ptr, &e.ptr);
}
void pa_assigns(NodeArray x, NodeArray y) {
    GGCPA<Node, NodeArray> a(x), e;
    GGC<NodeArray> b(y);
    e = x;
    scope(3, &a.ptr, &b.ptr, &e.ptr);
    same(e.GGC<NodeArray>::get(), x);
    e = b;
    scope(3, &a.ptr, &b.ptr, &e.ptr);
    same(e.GGC<NodeArray>::get(), y);
    e = a;
    scope(3, &a.ptr, &b.ptr, &e.ptr);
    same(e.GGC<NodeArray>::get(), x);
    same(a.GGC<NodeArray>::get(), x);
    same(b.get(), y);
}
Node pa_get(NodeArray x, ggc_size_t i) { GGCPA<Node, NodeArray> a(x); scope(1, &a.ptr); return a.get(i); }
Node pa_index(NodeArray x, ggc_size_t i) { GGCPA<Node, NodeArray> a(x); scope(1, &a.ptr); return a[i]; }
Node pa_put(NodeArray x, ggc_size_t i, Node v) {
    GGCPA<Node, NodeArray> a(x); GGC<Node> n(v);
    scope(2, &a.ptr, &n.ptr);
    return a.put(i, n);
}
void pa_put_safe(NodeArray x, ggc_size_t i, Node v) {
    GGCPA<Node, NodeArray> a(x); GGC<Node> n(v);
    a.put(i, n);
    scope(2, &a.ptr, &n.ptr);
}
void da_registers(GGC_int_Array x, GGC_int_Array y) {
    GGCDA<int, GGC_int_Array> a(x), e;
    GGC<GGC_int_Array> b(y);
    GGCDA<int, GGC_int_Array> c(b), d(a);
    scope(5, &a.ptr, &b.ptr, &c.ptr, &d.ptr, &e.ptr);
    e = x;
    e = b;
    same(e.GGC<GGC_int_Array>::get(), y);
    e = a;
    scope(5, &a.ptr, &b.ptr, &c.ptr, &d.ptr, &e.ptr);
    same(e.GGC<GGC_int_Array>::get(), x);
    same(c.GGC<GGC_int_Array>::get(), y);
}
#define DA(T) \
T da_get_ ## T(GGC_ ## T ## _Array x, ggc_size_t i) { GGCDA<T, GGC_ ## T ## _Array> a(x); scope(1, &a.ptr); return a.get(i); } \
T da_index_ ## T(GGC_ ## T ## _Array x, ggc_size_t i) { GGCDA<T, GGC_ ## T ## _Array> a(x); scope(1, &a.ptr); return a[i]; } \
T da_put_ ## T(GGC_ ## T ## _Array x, ggc_size_t i, T v) { GGCDA<T, GGC_ ## T ## _Array> a(x); scope(1, &a.ptr); return a.put(i, v); }
DA(char)
DA(short)
DA(int)
DA(long)

/* members */
#define MD(T, m) \
T mget_ ## m(Node n) { return n->m; } \
T wget_ ## m(Node n) { GGC<Node> a(n); scope(1, &a.ptr); return a->m; } \
void mput_ ## m(Node n, T x) { n->m = x; } \
void wput_ ## m(Node n, T x) { GGC<Node> a(n); scope(1, &a.ptr); a->m = x; }
MD(char, c1)
MD(short, s)
MD(int, i)
MD(ggc_size_t, id)
#define MP(m) \
Node mget_ ## m(Node n) { return n->m; } \
Node wget_ ## m(Node n) { GGC<Node> a(n); scope(1, &a.ptr); return a->m; } \
void mput_ ## m(Node n, Node x) { n->m = x; } \
void wput_ ## m(Node n, Node x) { GGC<Node> a(n), b(x); scope(2, &a.ptr, &b.ptr); a->m = b; }
MP(next)
MP(other)
}
