/* A receiver state as horus_open_advanced_sample_rate leaves it, but with a bit buffer of a chosen
 * length (the buffer length is part of the state).  Used to skip the thousands of initialisation
 * steps of the product's 3740-bit buffer; C11 checks the real open/close. */
#ifndef HSTATE_H
#define HSTATE_H
static struct horus *vp_hopen(int mode, int len) {
    static const signed char uwb[16] = {0,0,1,0,0,1,0,0, 0,0,1,0,0,1,0,0};
    static const signed char uw7n1[18] = {0,0,1,0,0,1,0,1,0, 0,0,1,0,0,1,0,1,0};
    static const signed char uw7n2[20] = {0,0,1,0,0,1,0,1,1,0, 0,0,1,0,0,1,0,1,1,0};
    static const signed char uw8n2[22] = {0,0,1,0,0,1,0,0,1,1,0, 0,0,1,0,0,1,0,0,1,1,0};
    struct horus *h = calloc(1, sizeof(struct horus));
    VP_ASSUME(h != 0);
    h->mode = mode; h->verbose = 0; h->Fs = 48000; h->Rs = 100;
    h->mFSK = mode == HORUS_MODE_BINARY_V1 ? 4 : 2;
    const signed char *u = uwb; int n = 16; h->max_packet_len = HORUS_BINARY_V1V2_MAX_BITS;
    if (mode == HORUS_MODE_RTTY_7N1) { u = uw7n1; n = 18; h->max_packet_len = HORUS_RTTY_7N1_NUM_BITS; }
    if (mode == HORUS_MODE_RTTY_7N2) { u = uw7n2; n = 20; h->max_packet_len = HORUS_RTTY_7N2_NUM_BITS; }
    if (mode == HORUS_MODE_RTTY_8N2) { u = uw8n2; n = 22; h->max_packet_len = HORUS_RTTY_8N2_NUM_BITS; }
    for (int i = 0; i < n; i++) h->uw[i] = 2 * u[i] - 1;
    h->uw_len = n; h->uw_thresh = n - 2;
    h->fsk = fskstub_new(h->Fs, h->Rs, h->mFSK);
    h->rx_bits = malloc(len); h->soft_bits = malloc(len * sizeof(float)); h->rx_bits_len = len;
    VP_ASSUME(h->rx_bits != 0 && h->soft_bits != 0);
    h->uw_count = 0; h->crc_ok = 0; h->total_payload_bits = 0; h->version = 0;
    uint8_t *rb = h->rx_bits; float *sb = h->soft_bits;
    for (int i = 0; i < len; i++) { rb[i] = 0; sb[i] = 0; }
    return h;
}
static void vp_hclose(struct horus *h) { free(h->fsk); free(h->rx_bits); free(h->soft_bits); free(h); }
#endif
