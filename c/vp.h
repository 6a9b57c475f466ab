/* Dual-mode harness support.
 *
 *  - under CBMC (VP_CBMC defined) vp_*() return arbitrary values, VP_ASSUME
 *    constrains them and VP_CHECK is the property handed to the solver;
 *  - natively the same harness is compiled with gcc -fsanitize=address,undefined against the same
 *    sources and vp_*() return the values of a solver counterexample, read from the file named by
 *    argv[1]: this is the replay that has to reproduce before a violation is reported.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

#ifdef VP_CBMC
unsigned long long nondet_vp_u64(void);
unsigned int nondet_vp_u32(void);
unsigned short nondet_vp_u16(void);
unsigned char nondet_vp_u8(void);
/* every input is logged as (sequence number << 32 | value) so that a trace can be replayed even
   when irrelevant inputs have been sliced away */
static unsigned long long vp_seq;
static unsigned vp_log(unsigned v) { unsigned long long VP_IN = (vp_seq << 32) | v; vp_seq++; return (unsigned)VP_IN; }
static unsigned char vp_u8(void)   { return (unsigned char)vp_log(nondet_vp_u8()); }
static unsigned short vp_u16(void) { return (unsigned short)vp_log(nondet_vp_u16()); }
static unsigned int vp_u32(void)   { return vp_log(nondet_vp_u32()); }
static unsigned long long vp_u64(void) { unsigned long long h = vp_u32(); return (h << 32) | vp_u32(); }
#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_CHECK(c, msg) __CPROVER_assert((c), "VP:" msg)
#define VP_MODEL(c, msg) __CPROVER_assert((c), "MODEL:" msg)
#define VP_REACH(c, msg) __CPROVER_assert(!(c), "WITNESS:" msg)
#else
#include <stdio.h>
extern unsigned long long vp_next(void);
extern void vp_fail(const char *msg);
extern void vp_assume_failed(const char *msg);
extern void vp_model(const char *msg);
static inline unsigned char vp_u8(void)   { return (unsigned char)vp_next(); }
static inline unsigned short vp_u16(void) { return (unsigned short)vp_next(); }
static inline unsigned int vp_u32(void)   { return (unsigned int)vp_next(); }
static inline unsigned long long vp_u64(void) { unsigned long long h = (unsigned)vp_next(); return (h << 32) | (unsigned)vp_next(); }
#define VP_ASSUME(c) do { if (!(c)) vp_assume_failed(#c); } while (0)
#define VP_CHECK(c, msg) do { if (!(c)) vp_fail(msg); } while (0)
#define VP_MODEL(c, msg) do { if (!(c)) vp_model(msg); } while (0)
#define VP_REACH(c, msg) do { (void)(c); } while (0)
#endif
/* a bit and a bounded integer */
static inline unsigned char vp_bit(void) { unsigned char b = vp_u8(); VP_ASSUME(b <= 1); return b; }
static inline int vp_range(int lo, int hi) { int v = (int)vp_u32(); VP_ASSUME(v >= lo && v <= hi); return v; }
void vp_harness(void);
#endif
