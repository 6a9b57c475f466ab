/* horus_rx in the RTTY modes: one call, arbitrary received bits, a unique word tracked at VP_LOC
 * (after this call's shift).  The CRC (decided by C05) is an arbitrary value here; which bytes it is
 * asked for is checked.
 *  - reported iff the characters from the unique word on read  $$...*HHHH  with HHHH the hex CRC of
 *    the text between the leading '$'s and the '*', the whole maximum-length window has been
 *    received, and text plus terminator fit the announced output buffer
 *  - the reported string is exactly the received characters up to the checksum, NUL terminated
 *  - nothing outside the announced buffers is touched, crc_ok agrees */
#include "vp.h"
#include "horus_api.h"
#include "horus_l2.h"
#include "fskstub.h"
#include "fmtstub.h"
#include "hstate.h"
#ifndef VP_MODE
#define VP_MODE HORUS_MODE_RTTY_7N2
#endif
#define FIELD (VP_MODE == HORUS_MODE_RTTY_8N2 ? 8 : 7)
#define STEP (VP_MODE == HORUS_MODE_RTTY_7N1 ? 9 : VP_MODE == HORUS_MODE_RTTY_7N2 ? 10 : 11)
#define PKT (HORUS_RTTY_MAX_CHARS * STEP)
#ifndef VP_LEN
#define VP_LEN (PKT + VP_NBITS)
#endif
#ifndef VP_CHARS
#define VP_CHARS HORUS_RTTY_MAX_CHARS
#endif

static unsigned char *bits;
static char *txt;
static int max;
static int crc_calls, crc_off, crc_len;
static unsigned short crc_val;

void vp_demod_bits(uint8_t *b, int n) { for (int i = 0; i < n; i++) b[i] = bits[VP_LEN - n + i]; }
void golay23_init(void) {}
int golay23_decode(int c) { return c; }
int golay23_syndrome(int c) { return c; }
int golay23_encode(int c) { return c; }
int golay23_count_errors(int c, int d) { return c; }

unsigned short horus_l2_gen_crc16(unsigned char *d, unsigned char len) {
    unsigned short v = vp_u16();
    int off = (int)((char *)d - txt);
    VP_CHECK(off >= 0 && off + len <= max, "checksum is taken over characters of this sentence only");
    crc_calls++; crc_off = off; crc_len = len; crc_val = v;
    return v;
}
static int hexval(int c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    return -1;
}
void vp_harness(void) {
    struct horus *h = vp_hopen(VP_MODE, VP_LEN);
    max = horus_get_max_ascii_out_len(h);
    VP_CHECK(max == HORUS_RTTY_MAX_CHARS, "announced text size");
    txt = malloc(max);
    bits = malloc(VP_LEN);
    VP_ASSUME(txt != 0 && bits != 0);
    for (int i = 0; i < max; i++) txt[i] = (char)vp_u8();      /* stale contents of the caller's buffer */
    for (int i = 0; i < VP_LEN; i++) bits[i] = 0;
    unsigned char ch[HORUS_RTTY_MAX_CHARS];
    uint8_t *rb = h->rx_bits;
    for (int i = 0; i < HORUS_RTTY_MAX_CHARS; i++) {
        ch[i] = 0;
        for (int j = 0; j < STEP; j++) {
            int p = VP_LOC + STEP * i + j;
            if (p >= VP_LEN) continue;
            bits[p] = (i < VP_CHARS && j < FIELD) ? vp_bit() : 0;
            if (j < FIELD) ch[i] |= bits[p] << j;
        }
    }
    for (int i = VP_LOC; i < VP_LEN - VP_NBITS; i++) rb[i + VP_NBITS] = bits[i];
    h->uw_count = MAX_UW_TO_TRACK;
    h->uw_loc[0] = VP_LOC + VP_NBITS;
    for (int i = 1; i < MAX_UW_TO_TRACK; i++) h->uw_loc[i] = VP_LEN - 1 + VP_NBITS - i;
    short in[VP_NIN * 2];
    for (int i = 0; i < VP_NIN * 2; i++) in[i] = 0;

    int ret = horus_rx(h, txt, in, 0);

    /* expected */
    int star = -1, dollars = 0;
    for (int i = HORUS_RTTY_MAX_CHARS - 1; i >= 0; i--) if (ch[i] == '*') star = i;
    for (int i = 7; i >= 0; i--) if (ch[i] != '$') dollars = i;
    if (dollars == 0 && ch[0] == '$') dollars = 8;
    int complete = VP_LOC + PKT <= VP_LEN;
    int wf = star >= 0 && star + 5 <= HORUS_RTTY_MAX_CHARS - 1, val = 0;
    for (int i = 0; i < HORUS_RTTY_MAX_CHARS - 5; i++) if (i == star) {
        for (int k = 1; k <= 4; k++) { int x = hexval(ch[i + k]); if (x < 0) wf = 0; val = val * 16 + (x & 15); }
    }
    int expect = complete && wf && crc_calls > 0 && val == crc_val;
    VP_CHECK(ret == expect, "a sentence is reported iff it is well formed, complete and its checksum matches");
    if (complete && star >= 0 && star + 5 <= HORUS_RTTY_MAX_CHARS - 1) {
        VP_CHECK(crc_calls == 1, "checksum is computed once per sentence");
        /* sentences of '$' only (no text) or with 8 and more '$': where the text starts is unspecified */
        if (dollars < 8 && dollars < star) VP_CHECK(crc_off == dollars && crc_len == star - dollars, "checksum covers the text between the leading '$' and the '*'");
        else VP_CHECK(crc_off <= star && crc_off + crc_len == star, "checksum covers the text before the '*'");
    }
    if (ret) {
        VP_CHECK(horus_crc_ok(h) == 1, "crc_ok is set for a reported sentence");
        for (int i = 0; i < HORUS_RTTY_MAX_CHARS; i++) {
            if (i < star + 5) VP_CHECK((unsigned char)txt[i] == ch[i], "reported text is the received characters");
            if (i == star + 5) VP_CHECK(txt[i] == 0, "reported text ends after the checksum");
        }
        for (int i = 0; i < h->uw_count; i++) VP_CHECK(h->uw_loc[i] != VP_LOC, "the unique word of a reported sentence is not tried again");
    }
    VP_REACH(VP_LOC + PKT > VP_LEN || (ret && star == 60 && dollars == 2), "sentence reported");
    VP_REACH(!ret, "no sentence");
    vp_hclose(h); free(txt); free(bits);
}
