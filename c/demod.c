/* One fsk_demod_core() call (src/fsk.c), complex arithmetic, transform and libm replaced:
 *  VP_PART 1: by arbitrary values - the demodulator stays inside its buffers, delivers bits of value
 *             0/1 and asks for an admissible number of samples next time, whatever the signal
 *  VP_PART 2: by a correlator that tells exactly which tone each sample carries - the bits delivered
 *             are those of the transmitted symbols, in order, most significant bit first */
#include "vp.h"
#include "fsk.h"
#include <math.h>
#define SPS (VP_FS / VP_RS)
#define BLK (SPS * VP_NSYM)
#define NBITS (VP_NSYM * (VP_M == 4 ? 2 : 1))
#ifndef VP_DNIN
#define VP_DNIN 0
#endif
#define NIN (BLK + VP_DNIN)
#ifdef VP_CBMC
double log2(double x) { int k = 0; double p = 1; while (p < x) { p = p * 2; k++; } return p == x ? k : k - 0.5; }
double pow(double b, double e) { double p = 1; for (int i = 0; i < 24; i++) if (i < e) p = p * 2; return p; }
double ceil(double x) { long n = (long)x; return n < x ? n + 1 : n; }
double floor(double x) { long n = (long)x; return n > x ? n - 1 : n; }
double round(double x) { return floor(x + 0.5); }
float floorf(float x) { int n = (int)x; return n > x ? n - 1 : n; }
float ceilf(float x) { int n = (int)x; return n < x ? n + 1 : n; }
#endif
static float angle;
float atan2f(float y, float x) { return angle; }
float log10f(float x) { return 0; }
float cosf(float x) { return 0; }
float sinf(float x) { return 0; }
float sqrtf(float x) { return x; }          /* monotone, like the square root */
static float smallint(int n) { return (float)(int)vp_range(0, 2 * n) - n; }

kiss_fft_cfg kiss_fft_alloc(int nfft, int inverse, void *mem, size_t *len) { return malloc(8); }
#if VP_PART != 2
static COMP any(void) { COMP r; r.real = smallint(8); r.imag = 0; return r; }
COMP vp_cmult(COMP a, COMP b) { return any(); }
COMP vp_cadd(COMP a, COMP b) { return any(); }
COMP vp_fcmult(float a, COMP b) { return any(); }
COMP vp_exp_j(float p) { COMP r; r.real = 1; r.imag = 0; return r; }
float vp_cabs(COMP a) { return 1; }
void kiss_fft(kiss_fft_cfg cfg, const kiss_fft_cpx *in, kiss_fft_cpx *out) {
    float s = 0;
    for (int i = 0; i < VP_NDFT; i++) { out[i].r = smallint(3); out[i].i = 0; }
}
#else
#define MARK 99.0f
COMP vp_cmult(COMP a, COMP b) { COMP r = a; if (b.real != MARK) { r.real = a.real == b.real ? 1 : 0; r.imag = 0; } return r; }
COMP vp_cadd(COMP a, COMP b) { COMP r; r.real = a.real + b.real; r.imag = 0; return r; }
COMP vp_fcmult(float a, COMP b) { COMP r; r.real = a * b.real; r.imag = 0; return r; }
COMP vp_exp_j(float p) { COMP r; r.real = MARK; r.imag = 0; return r; }
float vp_cabs(COMP a) { return 1; }
void kiss_fft(kiss_fft_cfg cfg, const kiss_fft_cpx *in, kiss_fft_cpx *out) { for (int i = 0; i < VP_NDFT; i++) { out[i].r = 1; out[i].i = 0; } }
#endif
#if VP_PART == 1
/* the tone estimator is PART 3 */
void fsk_demod_freq_est(struct FSK *fsk, COMP fsk_in[], float *freqs, int M) {
    for (int m = 0; m < M; m++) { freqs[m] = smallint(100); fsk->f2_est[m] = smallint(100); }
}
#endif

void vp_harness(void) {
    struct FSK *f = fsk_create_hbr(VP_FS, VP_RS, VP_M, VP_P, VP_NSYM, 1000, VP_TONE);
    VP_ASSUME(f != 0);
    VP_MODEL(f->Ndft == VP_NDFT && f->Ts == SPS && f->N == BLK, "modem geometry as in fsk_create");
    f->nin = NIN;
    COMP *in = malloc(NIN * sizeof(COMP));
    uint8_t *bits = malloc(NBITS);
    float *sd = malloc(NBITS * sizeof(float));
    VP_ASSUME(in != 0 && bits != 0 && sd != 0);
    for (int i = 0; i < NBITS; i++) { bits[i] = 77; sd[i] = 0; }
    fsk_set_freq_est_alg(f, VP_MASK);
#if VP_PART == 1
    for (int i = 0; i < NIN; i++) { in[i].real = 1; in[i].imag = 0; }
    int a = vp_u32();
    VP_ASSUME(a >= -3141593 && a <= 3141593);
    angle = a == 3141593 ? 3.14159274f : a == -3141593 ? -3.14159274f : a * 1e-6f;
    int burst = vp_bit();
    if (burst) f->burst_mode = 1;
    fsk_demod_core(f, bits, sd, in);
    for (int i = 0; i < NBITS; i++) VP_CHECK(bits[i] <= 1, "every bit of the block is delivered, as 0 or 1");
    int nin = (int)fsk_nin(f);
    VP_CHECK(burst ? nin == NIN : (nin == BLK || nin == BLK + SPS / 2 || nin == BLK - SPS / 2), "the next block size is nominal or half a symbol more or less");
    if (!burst) VP_CHECK(angle > 1.5708f ? nin > BLK || SPS < 2 : angle < -1.5708f ? nin < BLK || SPS < 2 : angle < 1.5707f && angle > -1.5707f ? nin == BLK : 1, "the block size follows the timing estimate");
    VP_CHECK(f->stats->neyesamp <= MODEM_STATS_EYE_IND_MAX && f->stats->neyetr <= MODEM_STATS_ET_MAX, "eye diagram inside its array");
    VP_REACH(!burst && nin > BLK, "longer block requested");
    VP_REACH(!burst && nin < BLK, "shorter block requested");
#elif VP_PART == 3
    for (int i = 0; i < NIN; i++) { in[i].real = 1; in[i].imag = 0; }
    fsk_set_freq_est_limits(f, VP_LO, VP_HI);
    fsk_demod_freq_est(f, in, f->f_est, VP_M);
    for (int m = 0; m < VP_M; m++) {
        VP_CHECK(f->f_est[m] >= -VP_FS / 2 && f->f_est[m] <= VP_FS / 2, "tone estimates inside the sampled band");
        if (m) VP_CHECK(f->f_est[m] >= f->f_est[m - 1], "tone estimates in ascending order");
    }
    VP_REACH(f->f_est[0] < 0 || VP_LO >= 0, "a negative tone found");
    VP_REACH(f->f_est[VP_M - 1] > 20, "a positive tone found");
#else
    /* tone of each transmitted symbol; the timing estimate says the symbols are aligned */
    int tone[VP_NSYM];
    for (int i = 0; i < VP_NSYM; i++) tone[i] = (i < VP_SYM0 || i >= VP_SYM1) ? i % VP_M : (int)vp_range(0, VP_M - 1);
    for (int i = 0; i < NIN; i++) { in[i].real = (float)tone[i / SPS]; in[i].imag = 0; }
    for (int m = 0; m < VP_M; m++) { f->phi_c[m].real = (float)m; f->phi_c[m].imag = 0; }
    angle = 0;
    fsk_demod_core(f, bits, sd, in);
    /* the first of the delivered symbols is the last one of the block before */
    for (int i = 1; i < VP_NSYM; i++) {
        int t = tone[i - 1];
        if (VP_M == 4) {
            VP_CHECK(bits[2 * i] == t / 2 && bits[2 * i + 1] == t % 2, "the delivered bits are the transmitted symbols in order");
            VP_CHECK((sd[2 * i] > 0) == (t / 2) && (sd[2 * i + 1] > 0) == (t % 2), "soft decisions have the sign of the hard ones");
        } else {
            VP_CHECK(bits[i] == t, "the delivered bits are the transmitted symbols in order");
            VP_CHECK((sd[i] < 0) == t, "soft decisions separate the tones");
        }
    }
    VP_CHECK((int)fsk_nin(f) == BLK, "aligned symbols need no correction");
    VP_REACH(tone[VP_SYM0 + 1] == 1 && tone[VP_SYM0 + 2] == 0, "a one delivered");
#endif
    fsk_destroy(f); free(in); free(bits); free(sd);
}
