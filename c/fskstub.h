/* Stand-in for the FSK modem (src/fsk.c) at its documented interface: an instance delivers
 * Nbits bits (each 0 or 1) and Nbits soft decisions per call and asks for nin samples.  Which bits
 * it delivers is decided by the harness: vp_demod_bits(). */
#ifndef FSKSTUB_H
#define FSKSTUB_H
#include "fsk.h"
#ifndef VP_NBITS
#define VP_NBITS 100
#endif
#ifndef VP_NIN
#define VP_NIN 4
#endif
void vp_demod_bits(uint8_t *bits, int n);
static int fskstub_live;

static struct FSK *fskstub_new(int Fs, int Rs, int M) {
    struct FSK *f = malloc(sizeof(struct FSK));
    VP_ASSUME(f != 0);
    f->Fs = Fs; f->Rs = Rs; f->mode = M;
    f->Nbits = VP_NBITS; f->Nsym = VP_NBITS / (M == 4 ? 2 : 1);
    f->Ts = VP_NIN; f->N = VP_NIN; f->nin = VP_NIN; f->Nmem = VP_NIN; f->P = 8;
    f->freq_est_type = 0; f->stats = 0; f->Sf = 0; f->f_dc = 0; f->hann_table = 0;
    fskstub_live++;
    return f;
}
struct FSK *fsk_create_hbr(int Fs, int Rs, int M, int P, int Nsym, int f1, int fs) { return fskstub_new(Fs, Rs, M); }
struct FSK *fsk_create(int Fs, int Rs, int M, int f1, int fs) { return fskstub_new(Fs, Rs, M); }
void fsk_set_freq_est_alg(struct FSK *fsk, int t) { fsk->freq_est_type = t; }
void fsk_set_freq_est_limits(struct FSK *fsk, int lo, int hi) { fsk->est_min = lo; fsk->est_max = hi; }
void fsk_clear_estimators(struct FSK *fsk) {}
uint32_t fsk_nin(struct FSK *fsk) { return (uint32_t)fsk->nin; }
void fsk_destroy(struct FSK *fsk) { fskstub_live--; free(fsk); }
void fsk_get_demod_stats(struct FSK *fsk, struct MODEM_STATS *st) { st->snr_est = 0; }
void fsk_demod_core(struct FSK *fsk, uint8_t rx_bits[], float rx_sd[], COMP in[]) {
    for (int i = 0; i < fsk->nin; i++) { volatile float x = in[i].real + in[i].imag; (void)x; }
    vp_demod_bits(rx_bits, fsk->Nbits);
    for (int i = 0; i < fsk->Nbits; i++) rx_sd[i] = 0;
}
void fsk_demod(struct FSK *fsk, uint8_t rx_bits[], COMP in[]) { vp_demod_bits(rx_bits, fsk->Nbits); }
#endif
