/* horus_rx in the binary mode: one call, from a receiver opened through the API, with arbitrary
 * received bits and a unique word being tracked at VP_LOC (position after this call's shift).
 * horus_l2_decode_rx_packet is replaced by a recorder returning arbitrary payloads and the CRC
 * function by arbitrary values (their behaviour is decided by C01-C05, C14); unique-word handling, candidate sizes, hex output
 * and bookkeeping are the real code.
 *  - a packet is reported iff some candidate size fits the buffer and its payload passes the CRC
 *    belonging to that size; the text is the upper-case hex of exactly that payload, NUL
 *    terminated inside the announced buffer; crc_ok and version agree
 *  - the bits handed to the L2 decoder are the buffer bits starting at the unique word
 *  - nothing outside the announced buffers is touched */
#include "vp.h"
#include "horus_api.h"
#include "horus_l2.h"
#include "fskstub.h"
#include "fmtstub.h"
#include "hstate.h"
#include "l2ref.h"
#ifndef VP_LOC
#define VP_LOC 3380
#endif
static const int sizes[6] = {22, 32, 48, 64, 96, 128};
static int used[6], last_k = -1;
static unsigned char payload[6][128];
static unsigned char *bits;   /* snapshot of the buffer after the shift */
static int nbuf;

void vp_demod_bits(uint8_t *b, int n) {
    for (int i = 0; i < n; i++) { b[i] = vp_bit(); bits[nbuf - n + i] = b[i]; }
}
/* L2 decoder stand-in: checks what it is given, returns the arbitrary payload of that size */
void horus_l2_decode_rx_packet(unsigned char *out, unsigned char *in, int n) {
    int k = -1;
    for (int i = 0; i < 6; i++) if (sizes[i] == n) k = i;
    VP_CHECK(k >= 0, "only packet sizes of the protocol are tried");
    if (k < 0) return;
    for (int i = 0; i < REF_TX(n); i++) {
#ifdef VP_CMP   /* the shorter candidates have jobs of their own */
        if (n != VP_CMP && i < REF_TX(n) - 1) continue;
#endif
        unsigned v = 0;
        for (int j = 0; j < 8; j++) v = (v << 1) | bits[VP_LOC + 8 * i + j];
        VP_CHECK(in[i] == v, "L2 decoder gets the bits that follow the unique word");
        in[i] = 0xAA;          /* the real one descrambles in place */
    }
    used[k]++; last_k = k; vp_fmt_open(k);
    for (int i = 0; i < n; i++) out[i] = payload[k][i];
}
/* the Golay layer is not entered: decode is replaced above, table set-up is not needed */
void golay23_init(void) {}
int golay23_decode(int c) { VP_MODEL(0, "golay decode reached"); return c; }
int golay23_syndrome(int c) { VP_MODEL(0, "golay syndrome reached"); return c; }
int golay23_encode(int c) { VP_MODEL(0, "golay encode reached"); return c; }
int golay23_count_errors(int c, int d) { VP_MODEL(0, "golay count_errors reached"); return c; }
/* CRC stand-in (the CRC itself is decided by C05): an arbitrary value for "all but the last two
 * bytes" and one for "all but the first two bytes" of the payload decoded last, and an unrelated
 * arbitrary value for any other range of bytes */
static unsigned short crc_tail[6], crc_head[6];
unsigned short horus_l2_gen_crc16(unsigned char *d, unsigned char len) {
    int k = last_k;
    if (k >= 0 && len == sizes[k] - 2) {
        int same_t = 1, same_h = 1;
        for (int i = 0; i < sizes[k] - 2; i++) {
            same_t = same_t && d[i] == payload[k][i];
            same_h = same_h && d[i] == payload[k][i + 2];
        }
        if (same_t && same_h) VP_ASSUME(crc_tail[k] == crc_head[k]);
        if (same_t) return crc_tail[k];
        if (same_h) return crc_head[k];
    }
    return vp_u16();
}
void vp_harness(void) {
    struct horus *h = vp_hopen(HORUS_MODE_BINARY_V1, VP_LEN);
    int max = horus_get_max_ascii_out_len(h);
    char *txt = malloc(max);
    nbuf = VP_LEN;
    bits = malloc(VP_LEN);
    VP_ASSUME(txt != 0 && bits != 0);
    txt[0] = 0;
    for (int i = 0; i < nbuf; i++) bits[i] = 0;
    /* bits from the unique word on are arbitrary, those before it do not matter */
    uint8_t *rb = h->rx_bits;
    for (int i = VP_LOC; i < nbuf - VP_NBITS; i++) { bits[i] = vp_bit(); rb[i + VP_NBITS] = bits[i]; }
    for (int k = 0; k < 6; k++) for (int i = 0; i < sizes[k]; i++) payload[k][i] = vp_u8();
    for (int k = 0; k < 6; k++) { crc_tail[k] = vp_u16(); crc_head[k] = vp_u16(); }
    /* tracker: full list, the first entry at VP_LOC, the others too recent to be complete */
    h->uw_count = MAX_UW_TO_TRACK;
    h->uw_loc[0] = VP_LOC + VP_NBITS;
    for (int i = 1; i < MAX_UW_TO_TRACK; i++) h->uw_loc[i] = nbuf - 1 + VP_NBITS - i;
    short in[VP_NIN * 2];
    for (int i = 0; i < VP_NIN * 2; i++) in[i] = 0;

    int ret = horus_rx(h, txt, in, 0);

    int fit[6], ok[6], ver[6], any = 0;
    for (int k = 0; k < 6; k++) {
        int n = sizes[k];
        fit[k] = VP_LOC + 8 * REF_TX(n) <= nbuf;
        unsigned tail = payload[k][n - 2] | (payload[k][n - 1] << 8), head = payload[k][0] | (payload[k][1] << 8);
        int tail_ok = crc_tail[k] == tail, head_ok = crc_head[k] == head;
        if (n == 22) { ok[k] = tail_ok; ver[k] = 1; }
        else if (n == 32) { ok[k] = tail_ok || head_ok; ver[k] = tail_ok ? 2 : 3; }
        else { ok[k] = head_ok; ver[k] = 3; }
        any = any || (fit[k] && ok[k]);
    }
    VP_CHECK(ret == 0 || ret == 1, "return value is a truth value");
    VP_CHECK(ret == any, "a packet is reported iff a candidate that fits passes its CRC");
    if (ret) {
        int len = -1;
        for (int i = 0; i < max; i++) if (len < 0 && txt[i] == 0) len = i;
        VP_CHECK(len >= 0, "reported text is terminated inside the announced buffer");
        int k = -1;
        for (int i = 0; i < 6; i++) if (len == 2 * sizes[i]) k = i;
        VP_CHECK(k >= 0, "reported text has the length of a packet");
        for (int c = 0; c < 6; c++) if (k == c) {
            VP_CHECK(fit[c] && ok[c], "reported payload fits and passes its CRC");
            VP_CHECK(horus_packet_version(h) == ver[c], "reported version is that of the CRC that passed");
            for (int i = 0; i < sizes[c]; i++)
                VP_CHECK(vp_hexbyte(txt, i, c) == payload[c][i], "reported text is the hex of the decoded payload");
            VP_CHECK(used[c] > 0, "payload was decoded in this call");
        }
        VP_CHECK(horus_crc_ok(h) == 1, "crc_ok is set for a reported packet");
        for (int i = 0; i < h->uw_count; i++) VP_CHECK(h->uw_loc[i] != VP_LOC, "the unique word of a reported packet is not tried again");
    }
#define R(k) VP_REACH(VP_LOC + 8 * REF_TX(sizes[k]) > nbuf || (ret && ok[k] && fit[k] && horus_packet_version(h) == ver[k]), "packet of candidate " #k " reported")
    R(0); R(1); R(2); R(3); R(4); R(5);
    VP_REACH(!ret && payload[0][0] == 1 && payload[1][0] == 1 && payload[5][5] == 1, "no packet");
    vp_hclose(h);
    free(txt); free(bits);
}
