/* harness-side interface: the same harness file is (a) compiled to IR, translated and proved, and
   (b) compiled natively to replay a counterexample (or to be run on random inputs). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t vp_nd_u8(void);
uint16_t vp_nd_u16(void);
uint32_t vp_nd_u32(void);
uint64_t vp_nd_u64(void);
void vp_assume(int c);
void vp_assert(int c, const char *label);
void vp_cover(const char *label);
#ifdef __cplusplus
}
#endif
#define REQUIRES(e) vp_assume(!!(e))
#define ENSURES(e, label) vp_assert(!!(e), label)
#define NOINLINE __attribute__((noinline))
#endif
