/* Independent reference of the Horus Binary layer-2 frame, written from the format description:
 *   "$$" | scramble(interleave( payload | parity )) ,
 *   parity: payload split in 12-bit groups MSB first (the last, partial group of p bits is the
 *   message value << 1 when p < 12), Golay(23,12) parity of each, 11 bits, MSB first, zero padded.
 *   interleaver: bit i -> bit (b*i) mod n, bits numbered LSB first in each byte,
 *   scrambler: x^15 + x^14 + 1 additive, 15-bit register 0x4a80, bits numbered LSB first. */
#ifndef L2REF_H
#define L2REF_H
#define REF_NCW(n) (((n) * 8 + 11) / 12)
#define REF_PAR(n) ((REF_NCW(n) * 11 + 7) / 8)
#define REF_TX(n) (2 + (n) + REF_PAR(n))

static unsigned ref_rem23(unsigned w) {
    unsigned r = 0;
    for (int i = 22; i >= 0; i--) {
        r = (r << 1) | ((w >> i) & 1);
        if (r & 0x800) r ^= 0xC75;
    }
    return r;
}
static int ref_b(int nbytes) {
    if (nbytes == 43) return 337;
    if (nbytes == 63) return 389;
    int b = (nbytes * 8 * 100) / 162;
    for (;;) {
        b++;
        int prime = 1;
        for (int k = 2; k * k <= b; k++) if (b % k == 0) prime = 0;
        if (prime) return b;
    }
}
/* number of message bits of codeword k */
static int ref_cwbits(int n, int k) { int left = n * 8 - 12 * k; return left >= 12 ? 12 : left; }
/* codeword k of a payload, as the 23-bit Golay word */
static unsigned ref_cw(const unsigned char *p, int n, int k) {
    int nb = ref_cwbits(n, k);
    unsigned m = 0;
    for (int i = 0; i < nb; i++) { int b = 12 * k + i; m = (m << 1) | ((p[b / 8] >> (7 - b % 8)) & 1); }
    if (nb < 12) m <<= 1;
    return (m << 11) | ref_rem23(m << 11);
}
/* position, in the un-interleaved packet after the unique word, of bit j (22..0) of codeword k;
   -1 for a padding bit that is not sent. MSB-first bit numbers */
static int ref_pos(int n, int k, int j) {
    if (j < 11) return n * 8 + 11 * k + (10 - j);
    int nb = ref_cwbits(n, k);
    int i = 22 - j;            /* 0.. message bit, MSB first within the 12 */
    if (nb == 12) return 12 * k + i;
    /* partial: the message is right aligned, shifted left by one */
    i -= 12 - (nb + 1);
    if (i < 0 || i >= nb) return -1;
    return 12 * k + i;
}
/* where an MSB-first numbered packet bit travels on air (LSB-first numbered, after interleaving) */
static int ref_air(int n, int msbbit) {
    int nbytes = n + REF_PAR(n), nbits = nbytes * 8;
    int lsb = (msbbit & ~7) | (7 - (msbbit & 7));
    return (int)(((long)ref_b(nbytes) * lsb) % nbits);
}
static void ref_scramble(unsigned char *d, int nbytes) {
    unsigned s = 0x4a80;
    for (int i = 0; i < nbytes * 8; i++) {
        unsigned o = ((s >> 1) ^ s) & 1;
        d[i / 8] ^= o << (i & 7);
        s = (s >> 1) | (o << 14);
    }
}
static void ref_encode(unsigned char *tx, const unsigned char *p, int n) {
    int nbytes = n + REF_PAR(n), nbits = nbytes * 8, b = ref_b(nbytes);
    unsigned char plain[n + REF_PAR(n)];
    for (int i = 0; i < nbytes; i++) plain[i] = i < n ? p[i] : 0;
    for (int k = 0; k < REF_NCW(n); k++) {
        unsigned par = ref_cw(p, n, k) & 0x7ff;
        for (int i = 0; i < 11; i++) {
            int pos = n * 8 + 11 * k + i;
            plain[pos / 8] |= ((par >> (10 - i)) & 1) << (7 - pos % 8);
        }
    }
    unsigned char air[n + REF_PAR(n)];
    for (int i = 0; i < nbytes; i++) air[i] = 0;
    for (int i = 0; i < nbits; i++) {
        int j = (int)(((long)b * i) % nbits);
        air[j / 8] |= ((plain[i / 8] >> (i & 7)) & 1) << (j & 7);
    }
    ref_scramble(air, nbytes);
    tx[0] = '$'; tx[1] = '$';
    for (int i = 0; i < nbytes; i++) tx[2 + i] = air[i];
}
#endif
