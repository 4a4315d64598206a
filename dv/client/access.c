/* client code of the member and array macros; see contracts/client.py */
#include "types.h"
#ifdef __cplusplus
extern "C" {
#endif
void wp_next(Node n, Node v) { GGC_WP(n, next, v); }
void wp_other(Node n, Node v) { GGC_WP(n, other, v); }
void wp_null(Node n) { GGC_WP(n, other, GGC_NULL); }
void wp_arr(Node n, NodeArray v) { GGC_WP(n, arr, v); }
void wap(NodeArray a, ggc_size_t i, Node v) { GGC_WAP(a, i, v); }
void wap_two(NodeArray a, ggc_size_t i, ggc_size_t j, Node v) { GGC_WAP(a, i, v); GGC_WAP(a, j, v); }
void wup(Node n, Node v) { GGC_WUP(n, v); }
void wd_c1(Node n, char x) { GGC_WD(n, c1, x); }
void wd_s(Node n, short x) { GGC_WD(n, s, x); }
void wd_i(Node n, int x) { GGC_WD(n, i, x); }
void wd_id(Node n, ggc_size_t x) { GGC_WD(n, id, x); }
void wad_char(GGC_char_Array a, ggc_size_t i, char x) { GGC_WAD(a, i, x); }
void wad_short(GGC_short_Array a, ggc_size_t i, short x) { GGC_WAD(a, i, x); }
void wad_int(GGC_int_Array a, ggc_size_t i, int x) { GGC_WAD(a, i, x); }
void wad_long(GGC_long_Array a, ggc_size_t i, long x) { GGC_WAD(a, i, x); }
Node rp_next(Node n) { return GGC_RP(n, next); }
Node rp_other(Node n) { return GGC_RP(n, other); }
char rd_c1(Node n) { return GGC_RD(n, c1); }
short rd_s(Node n) { return GGC_RD(n, s); }
int rd_i(Node n) { return GGC_RD(n, i); }
ggc_size_t rd_id(Node n) { return GGC_RD(n, id); }
Node rap(NodeArray a, ggc_size_t i) { return GGC_RAP(a, i); }
char rad_char(GGC_char_Array a, ggc_size_t i) { return GGC_RAD(a, i); }
short rad_short(GGC_short_Array a, ggc_size_t i) { return GGC_RAD(a, i); }
int rad_int(GGC_int_Array a, ggc_size_t i) { return GGC_RAD(a, i); }
long rad_long(GGC_long_Array a, ggc_size_t i) { return GGC_RAD(a, i); }
void *rup(Node n) { return GGC_RUP(n); }
ggc_size_t len_pa(NodeArray a) { return GGC_LENGTH(a); }
ggc_size_t len_da(GGC_short_Array a) { return GGC_LENGTH(a); }
/* what the type macros declare, as this function sees it */
void use(void *);
void layouts(void) { use(&Node__descriptorSlot); use(&Wide__descriptorSlot); use(&Odd__descriptorSlot); use(&OddPtr__descriptorSlot); use(&GGC_ThreadArg__descriptorSlot); }
#ifdef __cplusplus
}
#endif
