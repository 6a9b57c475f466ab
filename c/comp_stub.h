/* Replaces src/comp_prim.h (same include guard): complex arithmetic of the modem becomes a stand-in
 * defined by the harness, in the encoding and in the native replay alike. */
#ifndef __COMP_PRIM__
#define __COMP_PRIM__
#include "comp.h"
COMP vp_cmult(COMP a, COMP b);
COMP vp_cadd(COMP a, COMP b);
COMP vp_fcmult(float a, COMP b);
COMP vp_exp_j(float phi);
float vp_cabs(COMP a);
static inline COMP cneg(COMP a) { COMP r; r.real = -a.real; r.imag = -a.imag; return r; }
static inline COMP comp0(void) { COMP r; r.real = 0; r.imag = 0; return r; }
static inline COMP cconj(COMP a) { return a; }
static inline COMP cmult(COMP a, COMP b) { return vp_cmult(a, b); }
static inline COMP cadd(COMP a, COMP b) { return vp_cadd(a, b); }
static inline COMP csub(COMP a, COMP b) { return vp_cadd(a, b); }
static inline COMP fcmult(float a, COMP b) { return vp_fcmult(a, b); }
static inline float cabsolute(COMP a) { return vp_cabs(a); }
static inline COMP comp_exp_j(float phi) { return vp_exp_j(phi); }
static inline COMP comp_normalize(COMP a) { return a; }
static inline int comp_mag_gt(COMP a, COMP b) { return a.real > b.real; }
#endif
