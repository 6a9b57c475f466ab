/* C01: the Golay (23,12) code of golay23.c, every 23-bit received word (= every message x every
 * error pattern).  The claim "up to three bit errors are corrected, and the result is the
 * transmitted codeword" is split into lemmas, each one solver query (VP_CASE):
 *   1 syndrome is the remainder by the Golay generator polynomial, for every 23-bit word
 *   2 the reference remainder is linear
 *   3 decode(r) ^ r has weight <= 3 and the same remainder as r, for every r
 *   4 encode(m) = m * x^11 + remainder, for every 12-bit m
 *   5 minimum distance 7: no non-zero word of weight <= 6 has remainder 0
 *   6 count_errors is the Hamming distance
 * r = c ^ e, |e| <= 3, t = decode(r) ^ r: rem(t) = rem(r) = rem(e) (3,2), so rem(t^e) = 0 and
 * |t^e| <= 6, hence t = e (5) and decode(r) = c. */
#include "vp.h"
#include "golay23.h"

/* independent reference: serial division by g(x) = x^11+x^10+x^6+x^5+x^4+x^2+1 */
static unsigned ref_rem(unsigned w) {
    unsigned r = 0;
    for (int i = 22; i >= 0; i--) {
        r = (r << 1) | ((w >> i) & 1);
        if (r & 0x800) r ^= 0xC75;
    }
    return r;
}
static int ref_weight(unsigned w) {
    int n = 0;
    for (int i = 0; i < 23; i++) n += (w >> i) & 1;
    return n;
}

void vp_harness(void) {
    unsigned w = vp_u32();
    VP_ASSUME(w <= 0x7fffff);
#if VP_CASE == 1
    VP_CHECK((unsigned)golay23_syndrome((int)w) == ref_rem(w), "syndrome is the remainder by the Golay polynomial");
#elif VP_CASE == 2
    unsigned v = vp_u32();
    VP_ASSUME(v <= 0x7fffff);
    VP_CHECK((ref_rem(v) ^ ref_rem(w)) == ref_rem(v ^ w), "reference remainder is linear");
#elif VP_CASE == 3
    golay23_init();
    unsigned d = (unsigned)golay23_decode((int)w);
    VP_CHECK(d <= 0x7fffff, "decode returns a 23-bit word");
    unsigned t = d ^ w;
    VP_CHECK(ref_weight(t) <= 3, "decode changes at most three bits");
    VP_CHECK(ref_rem(t) == ref_rem(w), "decode removes exactly the error syndrome");
#elif VP_CASE == 4
    VP_ASSUME(w <= 0xfff);
    golay23_init();
    unsigned cw = (unsigned)golay23_encode((int)w);
    VP_CHECK(cw == ((w << 11) | ref_rem(w << 11)), "encode is the systematic Golay codeword");
#elif VP_CASE == 5
    VP_CHECK(!(w != 0 && ref_weight(w) <= 6 && ref_rem(w) == 0), "minimum distance seven");
#elif VP_CASE == 7
    /* the table-free variant only promises the message bits of the nearest codeword */
    golay23_init();
#ifdef VP_ZERO_MESSAGE
    VP_ASSUME(ref_weight(w) <= 3);
#endif
    unsigned d7 = (unsigned)golay23_decode((int)w);
    unsigned m7 = (d7 >> 11) & 0xfff;
    VP_CHECK(d7 <= 0x7fffff, "decode returns a 23-bit word");
    VP_CHECK(ref_weight(((m7 << 11) | ref_rem(m7 << 11)) ^ w) <= 3, "decoded message is that of a codeword within three bits");
#elif VP_CASE == 6
    unsigned v = vp_u32();
    VP_ASSUME(v <= 0x7fffff);
    VP_CHECK(golay23_count_errors((int)v, (int)w) == ref_weight(v ^ w), "count_errors is the Hamming distance");
#endif
    VP_REACH(1, "end");
}
