/* sample types of the client code; see contracts/client.py */
#include "ggggc/gc.h"
GGC_TYPE(Node)
    GGC_MDATA(char, c1);
    GGC_MPTR(Node, next);
    GGC_MDATA(int, i);
    GGC_MDATA(short, s);
    GGC_MPTR(Node, other);
    GGC_MDATA(ggc_size_t, id);
    GGC_MPTR(NodeArray, arr);
GGC_END_TYPE(Node, GGC_PTR(Node, next) GGC_PTR(Node, other) GGC_PTR(Node, arr))
/* a pointer behind the first 32 words, the last in a description word */
GGC_TYPE(Wide)
    GGC_MPTR(Node, first);
    GGC_MDATA(int, i);
    GGC_MDATA(ggc_size_t, a0); GGC_MDATA(ggc_size_t, a1); GGC_MDATA(ggc_size_t, a2); GGC_MDATA(ggc_size_t, a3);
    struct { ggc_size_t a[33]; } rest;
    GGC_MPTR(Node, far);
    struct { ggc_size_t a[21]; } rest2;
    GGC_MPTR(Node, last);
GGC_END_TYPE(Wide, GGC_PTR(Wide, first) GGC_PTR(Wide, far) GGC_PTR(Wide, last))
/* no pointers, and a size that is no multiple of a word */
GGC_TYPE(Odd)
    GGC_MDATA(ggc_size_t, x);
    GGC_MDATA(char, c);
GGC_END_TYPE(Odd, GGC_NO_PTRS)
GGC_TYPE(OddPtr)
    GGC_MDATA(char, c);
    GGC_MDATA(int, i);
    GGC_MPTR(Odd, p);
    GGC_MDATA(short, s);
GGC_END_TYPE(OddPtr, GGC_PTR(OddPtr, p))
