/* client code of every push macro; see contracts/roots.py.
 * scope(n, p...) is called where exactly the variables at p... are registered. */
#include <alloca.h>
#include <string.h>
#include "ggggc/gc.h"
#ifdef __cplusplus
extern "C" {
#define ARGS ...
#else
#define ARGS ...
#endif
#if !defined(__cplusplus) && defined(GGGGC_NO_GNUC_CLEANUP)
/* there, a return leaves only the innermost scope */
#define FLAT
#endif
void scope(int n, ...);
int choose(void);

void push_1(void) {
    void *a = 0;
    GGC_PUSH_1(a);
    scope(1, &a);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(3, &x, &y, &a);
        if (choose()) return;
        GGC_POP();
    }
    scope(1, &a);
#endif
    if (choose()) return;
    scope(1, &a);
    GGC_POP();
}
void manual_1(void) {
    void *a = 0;
    GGC_PUSH_MANUAL_1(a);
    scope(1, &a);
    GGC_POP_MANUAL();
    scope(0);
}

void push_2(void) {
    void *a = 0, *b = 0;
    GGC_PUSH_2(a, b);
    scope(2, &a, &b);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(4, &x, &y, &a, &b);
        if (choose()) return;
        GGC_POP();
    }
    scope(2, &a, &b);
#endif
    if (choose()) return;
    scope(2, &a, &b);
    GGC_POP();
}
void manual_2(void) {
    void *a = 0, *b = 0;
    GGC_PUSH_MANUAL_2(a, b);
    scope(2, &a, &b);
    GGC_POP_MANUAL();
    scope(0);
}

void push_3(void) {
    void *a = 0, *b = 0, *c = 0;
    GGC_PUSH_3(a, b, c);
    scope(3, &a, &b, &c);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(5, &x, &y, &a, &b, &c);
        if (choose()) return;
        GGC_POP();
    }
    scope(3, &a, &b, &c);
#endif
    if (choose()) return;
    scope(3, &a, &b, &c);
    GGC_POP();
}
void manual_3(void) {
    void *a = 0, *b = 0, *c = 0;
    GGC_PUSH_MANUAL_3(a, b, c);
    scope(3, &a, &b, &c);
    GGC_POP_MANUAL();
    scope(0);
}

void push_4(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0;
    GGC_PUSH_4(a, b, c, d);
    scope(4, &a, &b, &c, &d);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(6, &x, &y, &a, &b, &c, &d);
        if (choose()) return;
        GGC_POP();
    }
    scope(4, &a, &b, &c, &d);
#endif
    if (choose()) return;
    scope(4, &a, &b, &c, &d);
    GGC_POP();
}
void manual_4(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0;
    GGC_PUSH_MANUAL_4(a, b, c, d);
    scope(4, &a, &b, &c, &d);
    GGC_POP_MANUAL();
    scope(0);
}

void push_5(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0;
    GGC_PUSH_5(a, b, c, d, e);
    scope(5, &a, &b, &c, &d, &e);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(7, &x, &y, &a, &b, &c, &d, &e);
        if (choose()) return;
        GGC_POP();
    }
    scope(5, &a, &b, &c, &d, &e);
#endif
    if (choose()) return;
    scope(5, &a, &b, &c, &d, &e);
    GGC_POP();
}
void manual_5(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0;
    GGC_PUSH_MANUAL_5(a, b, c, d, e);
    scope(5, &a, &b, &c, &d, &e);
    GGC_POP_MANUAL();
    scope(0);
}

void push_6(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0;
    GGC_PUSH_6(a, b, c, d, e, f);
    scope(6, &a, &b, &c, &d, &e, &f);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(8, &x, &y, &a, &b, &c, &d, &e, &f);
        if (choose()) return;
        GGC_POP();
    }
    scope(6, &a, &b, &c, &d, &e, &f);
#endif
    if (choose()) return;
    scope(6, &a, &b, &c, &d, &e, &f);
    GGC_POP();
}
void manual_6(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0;
    GGC_PUSH_MANUAL_6(a, b, c, d, e, f);
    scope(6, &a, &b, &c, &d, &e, &f);
    GGC_POP_MANUAL();
    scope(0);
}

void push_7(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0;
    GGC_PUSH_7(a, b, c, d, e, f, g);
    scope(7, &a, &b, &c, &d, &e, &f, &g);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(9, &x, &y, &a, &b, &c, &d, &e, &f, &g);
        if (choose()) return;
        GGC_POP();
    }
    scope(7, &a, &b, &c, &d, &e, &f, &g);
#endif
    if (choose()) return;
    scope(7, &a, &b, &c, &d, &e, &f, &g);
    GGC_POP();
}
void manual_7(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0;
    GGC_PUSH_MANUAL_7(a, b, c, d, e, f, g);
    scope(7, &a, &b, &c, &d, &e, &f, &g);
    GGC_POP_MANUAL();
    scope(0);
}

void push_8(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0;
    GGC_PUSH_8(a, b, c, d, e, f, g, h);
    scope(8, &a, &b, &c, &d, &e, &f, &g, &h);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(10, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h);
        if (choose()) return;
        GGC_POP();
    }
    scope(8, &a, &b, &c, &d, &e, &f, &g, &h);
#endif
    if (choose()) return;
    scope(8, &a, &b, &c, &d, &e, &f, &g, &h);
    GGC_POP();
}
void manual_8(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0;
    GGC_PUSH_MANUAL_8(a, b, c, d, e, f, g, h);
    scope(8, &a, &b, &c, &d, &e, &f, &g, &h);
    GGC_POP_MANUAL();
    scope(0);
}

void push_9(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0;
    GGC_PUSH_9(a, b, c, d, e, f, g, h, i);
    scope(9, &a, &b, &c, &d, &e, &f, &g, &h, &i);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(11, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i);
        if (choose()) return;
        GGC_POP();
    }
    scope(9, &a, &b, &c, &d, &e, &f, &g, &h, &i);
#endif
    if (choose()) return;
    scope(9, &a, &b, &c, &d, &e, &f, &g, &h, &i);
    GGC_POP();
}
void manual_9(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0;
    GGC_PUSH_MANUAL_9(a, b, c, d, e, f, g, h, i);
    scope(9, &a, &b, &c, &d, &e, &f, &g, &h, &i);
    GGC_POP_MANUAL();
    scope(0);
}

void push_10(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0;
    GGC_PUSH_10(a, b, c, d, e, f, g, h, i, j);
    scope(10, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(12, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j);
        if (choose()) return;
        GGC_POP();
    }
    scope(10, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j);
#endif
    if (choose()) return;
    scope(10, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j);
    GGC_POP();
}
void manual_10(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0;
    GGC_PUSH_MANUAL_10(a, b, c, d, e, f, g, h, i, j);
    scope(10, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j);
    GGC_POP_MANUAL();
    scope(0);
}

void push_11(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0;
    GGC_PUSH_11(a, b, c, d, e, f, g, h, i, j, k);
    scope(11, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(13, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k);
        if (choose()) return;
        GGC_POP();
    }
    scope(11, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k);
#endif
    if (choose()) return;
    scope(11, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k);
    GGC_POP();
}
void manual_11(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0;
    GGC_PUSH_MANUAL_11(a, b, c, d, e, f, g, h, i, j, k);
    scope(11, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k);
    GGC_POP_MANUAL();
    scope(0);
}

void push_12(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0;
    GGC_PUSH_12(a, b, c, d, e, f, g, h, i, j, k, l);
    scope(12, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(14, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l);
        if (choose()) return;
        GGC_POP();
    }
    scope(12, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l);
#endif
    if (choose()) return;
    scope(12, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l);
    GGC_POP();
}
void manual_12(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0;
    GGC_PUSH_MANUAL_12(a, b, c, d, e, f, g, h, i, j, k, l);
    scope(12, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l);
    GGC_POP_MANUAL();
    scope(0);
}

void push_13(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0;
    GGC_PUSH_13(a, b, c, d, e, f, g, h, i, j, k, l, m);
    scope(13, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(15, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m);
        if (choose()) return;
        GGC_POP();
    }
    scope(13, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m);
#endif
    if (choose()) return;
    scope(13, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m);
    GGC_POP();
}
void manual_13(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0;
    GGC_PUSH_MANUAL_13(a, b, c, d, e, f, g, h, i, j, k, l, m);
    scope(13, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m);
    GGC_POP_MANUAL();
    scope(0);
}

void push_14(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0, *n = 0;
    GGC_PUSH_14(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
    scope(14, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(16, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n);
        if (choose()) return;
        GGC_POP();
    }
    scope(14, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n);
#endif
    if (choose()) return;
    scope(14, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n);
    GGC_POP();
}
void manual_14(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0, *n = 0;
    GGC_PUSH_MANUAL_14(a, b, c, d, e, f, g, h, i, j, k, l, m, n);
    scope(14, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n);
    GGC_POP_MANUAL();
    scope(0);
}

void push_15(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0, *n = 0, *o = 0;
    GGC_PUSH_15(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o);
    scope(15, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(17, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o);
        if (choose()) return;
        GGC_POP();
    }
    scope(15, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o);
#endif
    if (choose()) return;
    scope(15, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o);
    GGC_POP();
}
void manual_15(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0, *n = 0, *o = 0;
    GGC_PUSH_MANUAL_15(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o);
    scope(15, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o);
    GGC_POP_MANUAL();
    scope(0);
}

void push_16(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0, *n = 0, *o = 0, *p = 0;
    GGC_PUSH_16(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p);
    scope(16, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o, &p);
#ifndef FLAT
    if (choose()) {
        void *x = 0, *y = 0;
        GGC_PUSH_2(x, y);
        scope(18, &x, &y, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o, &p);
        if (choose()) return;
        GGC_POP();
    }
    scope(16, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o, &p);
#endif
    if (choose()) return;
    scope(16, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o, &p);
    GGC_POP();
}
void manual_16(void) {
    void *a = 0, *b = 0, *c = 0, *d = 0, *e = 0, *f = 0, *g = 0, *h = 0, *i = 0, *j = 0, *k = 0, *l = 0, *m = 0, *n = 0, *o = 0, *p = 0;
    GGC_PUSH_MANUAL_16(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p);
    scope(16, &a, &b, &c, &d, &e, &f, &g, &h, &i, &j, &k, &l, &m, &n, &o, &p);
    GGC_POP_MANUAL();
    scope(0);
}

#ifndef __cplusplus
#define PL(...) __VA_ARGS__
void push_n(void) {
    void *a = 0, *b = 0, *c = 0;
    GGC_PUSH_N(3, PL({&a, &b, &c}));
    scope(3, &a, &b, &c);
    if (choose()) return;
    scope(3, &a, &b, &c);
    GGC_POP();
}
#endif
#ifdef __cplusplus
}
#endif
