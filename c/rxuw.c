/* Unique-word tracking of horus_rx: one call from an arbitrary receiver state.  The receiver is put in a mode without packet
 * extraction, so only the buffer shift, the search and the list update run.
 *  - the bit buffer moves by exactly the bits delivered
 *  - positions tracked before stay tracked (moved along) until their start leaves the buffer
 *  - every alignment that became complete with this call is examined once: it is tracked iff at
 *    most one bit differs from the mode's unique word
 *  - no more than MAX_UW_TO_TRACK, older ones first */
#include "vp.h"
#include "horus_api.h"
#include "horus_l2.h"
#include "fskstub.h"
#include "hstate.h"
#ifndef VP_MODE
#define VP_MODE HORUS_MODE_BINARY_V1
#endif
static unsigned char nb[VP_NBITS];
void vp_demod_bits(uint8_t *b, int n) { for (int i = 0; i < n; i++) b[i] = nb[i]; }
int horus_l2_get_num_tx_data_bytes(int n) { VP_CHECK(0, "no extraction in this mode"); return 65; }
void horus_l2_decode_rx_packet(unsigned char *o, unsigned char *i, int n) { VP_CHECK(0, "no extraction in this mode"); }
unsigned short horus_l2_gen_crc16(unsigned char *d, unsigned char n) { VP_CHECK(0, "no extraction in this mode"); return 0; }
void horus_l2_init(void) {}

static int reach_new, reach_full, reach_any;

static void one(int fill, const int *loc, int cnt) {
    struct horus *h = vp_hopen(VP_MODE, VP_LEN);
    int uwl = h->uw_len;
    h->mode = HORUS_MODE_BINARY_V2_256BIT;
    unsigned char all[VP_LEN + VP_NBITS];            /* buffer before the call, then the new bits */
    uint8_t *rb = h->rx_bits;
    for (int i = 0; i < VP_LEN + VP_NBITS; i++) all[i] = fill ? h->uw[i % (h->uw_len / 2)] > 0 : vp_bit();
    for (int i = 0; i < VP_LEN; i++) rb[i] = all[i];
    for (int i = 0; i < VP_NBITS; i++) nb[i] = all[VP_LEN + i];
    h->uw_count = cnt;
    for (int i = 0; i < MAX_UW_TO_TRACK; i++) h->uw_loc[i] = loc[i];
    short in[VP_NIN * 2];
    for (int i = 0; i < VP_NIN * 2; i++) in[i] = 0;
    char out[HORUS_BINARY_V1V2_MAX_UNCODED_BYTES * 2 + 1];

    int ret = horus_rx(h, out, in, 0);

    VP_CHECK(ret == 0, "nothing is reported without extraction");
    for (int i = 0; i < VP_LEN; i++) VP_CHECK(h->rx_bits[i] == all[i + VP_NBITS], "bit buffer moves by the delivered bits");
    int e[MAX_UW_TO_TRACK], ec = 0, nnew = 0;
    for (int i = 0; i < MAX_UW_TO_TRACK; i++) e[i] = 0;
    for (int i = 0; i < MAX_UW_TO_TRACK; i++)
        if (i < cnt && loc[i] - VP_NBITS >= 0) { e[ec] = loc[i] - VP_NBITS; ec++; }
    int old = ec;
    for (int p = VP_LEN - VP_NBITS - uwl; p < VP_LEN - uwl; p++) {
        int err = 0;
        for (int j = 0; j < uwl; j++) err += all[p + VP_NBITS + j] != (h->uw[j] > 0);
        if (err <= 1 && ec < MAX_UW_TO_TRACK) { e[ec] = p; ec++; nnew++; }
    }
    VP_CHECK(h->uw_count == ec, "number of tracked unique words");
    for (int i = 0; i < MAX_UW_TO_TRACK; i++)
        if (i < ec) VP_CHECK(h->uw_loc[i] == e[i], "tracked positions: the old ones moved along, then every new match");
    if (nnew >= 1) reach_any = 1;
    if (nnew >= 1 && old >= 1) reach_new = 1;
    if (ec == MAX_UW_TO_TRACK && nnew) reach_full = 1;
    vp_hclose(h);
}
void vp_harness(void) {
    int loc[MAX_UW_TO_TRACK];
#if VP_CASE == 1          /* every content of the stream, no position tracked before */
    for (int i = 0; i < MAX_UW_TO_TRACK; i++) loc[i] = 0;
    one(0, loc, VP_CNT);
    VP_REACH(reach_any, "a new position tracked");
#else                      /* lists of VP_CNT tracked positions of any values */
    for (int i = 0; i < MAX_UW_TO_TRACK; i++) loc[i] = vp_range(0, VP_LEN) - 1;
    one(1, loc, VP_CNT);
    VP_REACH(reach_new, "old and new positions tracked");
#ifdef VP_FULL
    VP_REACH(reach_full, "list filled up");
#endif
#endif
}
