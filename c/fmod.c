/* The modulators of src/fsk.c, every bit content.  Complex arithmetic is a stand-in that carries the
 * tone (real part) and counts oscillator steps (imaginary part), so that what is decided is which
 * tone is sent when, and that the oscillator runs on from block to block. */
#include "vp.h"
#include "fsk.h"
#include <math.h>
#define SPS (VP_FS / VP_RS)
#define BLK (SPS * VP_NSYM)
#define NBITS (VP_NSYM * (VP_M == 4 ? 2 : 1))
#ifdef VP_CBMC
double log2(double x) { int k = 0; double p = 1; while (p < x) { p = p * 2; k++; } return p == x ? k : k - 0.5; }
double pow(double b, double e) { double p = 1; for (int i = 0; i < 24; i++) if (i < e) p = p * 2; return p; }
double ceil(double x) { long n = (long)x; return n < x ? n + 1 : n; }
#endif
float cosf(float x) { return 0; }
kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse, void *mem, size_t *len) { return malloc(8); }
void kiss_fft(kiss_fft_cfg cfg, const kiss_fft_cpx *in, kiss_fft_cpx *out) {}
COMP vp_cmult(COMP a, COMP b) { COMP r; r.real = b.real; r.imag = a.imag + 1; return r; }
COMP vp_cadd(COMP a, COMP b) { return a; }
COMP vp_fcmult(float a, COMP b) { COMP r; r.real = a * b.real; r.imag = a * b.imag; return r; }
COMP vp_exp_j(float p) {
    COMP r; r.real = -1; r.imag = 0;
    for (int m = 0; m < VP_M; m++) {
        double w = 2 * M_PI * ((double)(VP_F1 + VP_TONE * m) / VP_FS);
        if (p > w - 1e-4 && p < w + 1e-4) r.real = (float)m;
    }
    return r;
}
float vp_cabs(COMP a) { return 1; }

void vp_harness(void) {
    struct FSK *f = fsk_create_hbr(VP_FS, VP_RS, VP_M, VP_P, VP_NSYM, VP_F1, VP_TONE);
    VP_ASSUME(f != 0);
    f->tx_phase_c.real = 0; f->tx_phase_c.imag = 0;
    for (int blk = 0; blk < 2; blk++) {
        unsigned char *bits = malloc(NBITS);
        float *out = malloc(BLK * sizeof(float));
        COMP *outc = malloc(BLK * sizeof(COMP));
        VP_ASSUME(bits != 0 && out != 0 && outc != 0);
        for (int i = 0; i < NBITS; i++) bits[i] = vp_bit();
#if VP_KIND == 0
        fsk_mod(f, out, bits);
#elif VP_KIND == 1
        fsk_mod_c(f, outc, bits);
#else
        fsk_mod_ext_vco(f, out, bits);
#endif
        for (int i = 0; i < BLK; i++) {
            int s = i / SPS, sym = VP_M == 4 ? 2 * bits[2 * s] + bits[2 * s + 1] : bits[s];
#if VP_KIND == 0
            VP_CHECK(out[i] == 2.0f * sym, "each sample carries the tone of its symbol");
#elif VP_KIND == 1
            VP_CHECK(outc[i].real == 2.0f * sym, "each sample carries the tone of its symbol");
            VP_CHECK(outc[i].imag == 2.0f * (blk * BLK + i + 1), "the oscillator advances once per sample and runs on from block to block");
#else
            VP_CHECK(out[i] == (float)(VP_F1 + VP_TONE * sym), "each sample drives the frequency of its symbol");
#endif
        }
#if VP_KIND != 2
        VP_CHECK(f->tx_phase_c.imag == (float)((blk + 1) * BLK), "the oscillator advances once per sample and runs on from block to block");
#endif
        VP_REACH(blk == 0 || bits[0] == 1, "a one sent");
        free(bits); free(out); free(outc);
    }
    fsk_destroy(f);
}
