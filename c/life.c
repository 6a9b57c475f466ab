/* Open / query / close of the receiver (VP_PART 1) and of the modem instance (VP_PART 2).
 * cbmc --memory-leak-check decides that nothing stays allocated. */
#include "vp.h"
#include <string.h>
#include <math.h>
#if VP_PART == 1
#include "horus_api.h"
#include "horus_l2.h"
#include "fskstub.h"
void vp_demod_bits(uint8_t *b, int n) { for (int i = 0; i < n; i++) b[i] = 0; }
static int l2_inits;
void horus_l2_init(void) { l2_inits++; }
int horus_l2_get_num_tx_data_bytes(int n) { return 65; }
void horus_l2_decode_rx_packet(unsigned char *o, unsigned char *i, int n) {}
unsigned short horus_l2_gen_crc16(unsigned char *d, unsigned char n) { return 0; }
#ifndef VP_MODE
#define VP_MODE 0
#endif
/* unique words: '$' '$' (0x24), MSB first in the binary modes; start bit 0, 7/8 data bits LSB first,
 * stop bits 1 in RTTY.  The search pattern begins with the first data bit. */
static int uwbit(int i) {
    int period = VP_MODE == 89 ? 9 : VP_MODE == 90 ? 10 : VP_MODE == 91 ? 11 : 8, nd = VP_MODE == 91 ? 8 : VP_MODE == 0 ? 8 : 7;
    int k = i % period;
    if (VP_MODE == 0) return (0x24 >> (7 - k)) & 1;
    if (k < nd) return (0x24 >> k) & 1;
    return k < period - 1;                     /* stop bits, then the next start bit */
}
void vp_harness(void) {
    int rs = vp_bit() ? -1 : (int)vp_range(1, 4800);
    int spacing = vp_bit() ? -1 : (int)vp_range(1, 5000);
    int plain = vp_bit();
    struct horus *h = plain ? horus_open(VP_MODE) : horus_open_advanced(VP_MODE, rs, spacing);
    VP_CHECK(h != 0, "a receiver is returned");
    if (h == 0) return;
    int M = VP_MODE == 0 ? 4 : 2, period = VP_MODE == 89 ? 9 : VP_MODE == 90 ? 10 : VP_MODE == 91 ? 11 : 8;
    VP_CHECK(horus_get_mode(h) == VP_MODE && horus_get_mFSK(h) == M && horus_get_Fs(h) == 48000, "mode, tones and sample rate");
    VP_CHECK(h->fsk->Rs == (plain || rs == -1 ? 100 : rs) && h->fsk->mode == M && h->fsk->Fs == 48000, "modem is set up for the requested or default rate");
    VP_CHECK((h->fsk->freq_est_type != 0) == (!plain && spacing != -1), "mask estimation iff a tone spacing was given");
    VP_CHECK(h->uw_len == 2 * period && h->uw_thresh == h->uw_len - 2, "unique word length and threshold");
    for (int i = 0; i < 2 * period; i++) VP_CHECK(h->uw[i] == 2 * uwbit(i) - 1, "unique word pattern");
    VP_CHECK(h->rx_bits_len >= h->max_packet_len + h->fsk->Nbits, "bit buffer holds a maximum length packet plus one block");
    VP_CHECK(h->max_packet_len >= (VP_MODE == 0 ? 8 * 270 : 120 * period), "room for the longest packet");
    VP_CHECK(horus_get_max_ascii_out_len(h) >= (VP_MODE == 0 ? 257 : 120), "announced text size covers the longest packet");
    /* every element is there and initialised */
    for (int k = 0; k <= 10; k++) {
        int probe = k == 10 ? h->rx_bits_len - 1 : k * h->rx_bits_len / 10;
        VP_CHECK(h->rx_bits[probe] <= 1 && h->soft_bits[probe] == 0.0f, "buffers start cleared");
    }
    VP_CHECK(h->uw_count == 0 && horus_crc_ok(h) == 0 && horus_get_total_payload_bits(h) == 0, "nothing received yet");
    VP_CHECK((int)horus_nin(h) == h->fsk->nin && horus_nin(h) * 2 <= (unsigned)horus_get_max_demod_in(h), "nin samples fit the announced input buffer");
    horus_set_verbose(h, 0);
    horus_close(h);
    VP_CHECK(fskstub_live == 0, "the modem instance is destroyed");
    VP_CHECK(VP_MODE != 0 || l2_inits >= 1, "layer 2 is initialised before binary reception");
    VP_REACH(!plain && rs > 0 && spacing > 0, "configured receiver closed");
}
#else
#include "fsk.h"
#ifdef VP_CBMC
/* exact where the code uses them: powers of two and their exponents */
double log2(double x) { int k = 0; double p = 1; while (p < x) { p = p * 2; k++; } return p == x ? k : k - 0.5; }
double pow(double b, double e) { double p = 1; for (int i = 0; i < 24; i++) if (i < e) p = p * 2; return p; }
double ceil(double x) { long n = (long)x; return n < x ? n + 1 : n; }
#endif
static void *ffts[4]; static int nffts;
kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse, void *mem, size_t *len) { VP_CHECK(nfft > 0 && (nfft & (nfft - 1)) == 0, "transform size is a power of two"); return malloc(8 + nfft); }
void kiss_fft(kiss_fft_cfg cfg, const kiss_fft_cpx *i, kiss_fft_cpx *o) {}
void vp_harness(void) {
    struct FSK *f = fsk_create_hbr(VP_FS, VP_RS, VP_M, VP_P, VP_NSYM, 1000, 200);
    VP_CHECK(f != 0, "a modem is returned");
    if (f == 0) return;
    int Ts = VP_FS / VP_RS;
    VP_CHECK(f->Ts == Ts && f->N == Ts * VP_NSYM && f->Nmem >= f->N + Ts + Ts / 2 + 1, "buffer geometry");
    VP_CHECK(f->Nbits == VP_NSYM * (VP_M == 4 ? 2 : 1), "bits per block");
    VP_CHECK(f->Ndft >= 10 * Ts && f->Ndft < 20 * Ts + 1, "ten transform bins per symbol rate");
    VP_CHECK(fsk_nin(f) == (unsigned)f->N, "first block size");
    for (int i = 0; i < f->Ndft; i++) VP_CHECK(f->Sf[i] == 0, "spectrum starts empty");
    for (int i = 0; i < VP_M * f->Nmem; i++) VP_CHECK(f->f_dc[i].real == 0 && f->f_dc[i].imag == 0, "integrators start empty");
    int a = (int)vp_range(0, VP_FS) - VP_FS / 2, b = (int)vp_range(0, VP_FS) - VP_FS / 2;
    VP_ASSUME(b > a);
    fsk_set_freq_est_limits(f, a, b);
    VP_CHECK(f->est_min == a && f->est_max == b, "estimator limits are those given");
    if (vp_bit()) fsk_enable_burst_mode(f);
    if (vp_bit()) fsk_clear_estimators(f);
    VP_CHECK(fsk_nin(f) == (unsigned)f->N, "block size");
    struct MODEM_STATS st;
    fsk_get_demod_stats(f, &st);
    VP_CHECK(st.snr_est == 0 && st.neyesamp <= MODEM_STATS_EYE_IND_MAX && st.neyetr <= MODEM_STATS_ET_MAX, "statistics have known values before the first block");
    fsk_destroy(f);
    VP_REACH(a < 0 && b > 100, "modem destroyed");
}
#endif
