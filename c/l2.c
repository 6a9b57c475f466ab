/* horus_l2.c encode/decode.  VP_N payload bytes, VP_MODE:
 *   1 wire format: encode == reference frame, and writes exactly the announced size
 *   2 round trip: decode(encode(p)) == p, input read within the announced size
 *   3 error tolerance: decode(encode(p) ^ e) == p for every e with <= 3 errors in each codeword
 *   4 arbitrary received bytes: no access outside the announced sizes, unique word ignored */
#include "vp.h"
#include "horus_l2.h"
#include "golay23.h"
#include "l2ref.h"
#ifndef VP_N
#define VP_N 22
#endif
#define TXN REF_TX(VP_N)

#ifdef VP_GOLAY_STUB
/* contract of golay23_decode, established by C01 for every 23-bit word c: the result is a 23-bit
   word and, for every Golay codeword g within distance three of c, the result is g.  The instance
   used for the i-th call is g = codeword i of the transmitted payload. (syndrome stays real) */
#ifdef VP_CBMC
static unsigned ghost_cw[REF_NCW(VP_N)];
static int ghost_i, ghost_n;
int golay23_decode(int c) {
    VP_CHECK(c >= 0 && c <= 0x7fffff, "golay23_decode called with a 23-bit word");
    unsigned d = nondet_vp_u32();
    VP_ASSUME(d <= 0x7fffff);
    if (ghost_i < ghost_n) {
        unsigned x = (unsigned)c ^ ghost_cw[ghost_i], wt = 0;
        for (int j = 0; j < 23; j++) wt += (x >> j) & 1;
        VP_ASSUME(wt > 3 || d == ghost_cw[ghost_i]);
        ghost_i++;
    }
    return (int)d;
}
void golay23_init(void) {}
#endif
#endif

void vp_harness(void) {
    /* exact-size heap blocks so that any access past the announced sizes is out of bounds */
    unsigned char *p = malloc(VP_N), *out = malloc(VP_N);
    int n = horus_l2_get_num_tx_data_bytes(VP_N);
    VP_CHECK(n == TXN, "announced packet size");
    unsigned char *tx = malloc(n);
    VP_ASSUME(p != 0 && out != 0 && tx != 0);
    for (int i = 0; i < VP_N; i++) p[i] = vp_u8();
    horus_l2_init();
#if VP_MODE == 4
    for (int i = 0; i < n; i++) tx[i] = vp_u8();
    horus_l2_decode_rx_packet(out, tx, VP_N);
#elif VP_MODE == 3
    /* the frame is the reference one (mode 1 shows the encoder produces exactly this) */
    ref_encode(tx, p, VP_N);
    tx[0] = vp_u8(); tx[1] = vp_u8();
    for (int k = 0; k < REF_NCW(VP_N); k++) {
#ifdef VP_CBMC
        ghost_cw[k] = ref_cw(p, VP_N, k); ghost_n = k + 1;
#endif
        unsigned char e1 = vp_u8(), e2 = vp_u8(), e3 = vp_u8();
        VP_ASSUME(e1 <= 23 && e2 <= 23 && e3 <= 23);
        unsigned err = ((1u << e1) ^ (1u << e2) ^ (1u << e3)) & 0x7fffff;
        for (int j = 0; j < 23; j++) {
            int pos = ref_pos(VP_N, k, j);
            if (pos < 0) { VP_ASSUME(!((err >> j) & 1)); continue; }
            int a = ref_air(VP_N, pos);
            tx[2 + a / 8] ^= ((err >> j) & 1) << (a & 7);
        }
    }
    horus_l2_decode_rx_packet(out, tx, VP_N);
    for (int i = 0; i < VP_N; i++) VP_CHECK(out[i] == p[i], "three errors per codeword are corrected");
#else
    int w = horus_l2_encode_tx_packet(tx, p, VP_N);
    VP_CHECK(w == n, "encode reports the announced size");
#if VP_MODE == 1
    unsigned char ref[TXN];
    ref_encode(ref, p, VP_N);
    for (int i = 0; i < n; i++) VP_CHECK(tx[i] == ref[i], "frame bytes are those of the published format");
#elif VP_MODE == 2
    tx[0] = vp_u8(); tx[1] = vp_u8();
    horus_l2_decode_rx_packet(out, tx, VP_N);
    for (int i = 0; i < VP_N; i++) VP_CHECK(out[i] == p[i], "decode(encode(p)) == p");
#endif
#endif
    VP_REACH(1, "end");
    free(p); free(out); free(tx);
}
