/* known finding F7(c): a full collection with the generational collector runs
 * the finalizer of a reachable object whose place does not change.
 * exit 0: the finalizer did not run; FAIL: it did */
#include "h.h"
GGC_TYPE(Obj)
    GGC_MDATA(ggc_size_t, id);
GGC_END_TYPE(Obj, GGC_NO_PTRS)
static int ran;
static void fin(void *o) { (void) o; ran++; }
int main(void) {
    Obj o = NULL;
    GGC_PUSH_1(o);
    o = GGC_NEW(Obj);
    GGC_FINALIZE(o, fin);
    h_what = "finalizer";
    ggggc_collect();
    CHECK(ran == 0, "finalizer of a reachable, unmoved object ran in a full collection");
    printf("ok\n");
    return 0;
}
