/* Model of the byte-to-hex formatting done through sprintf/snprintf("%02X").  Under the solver a
 * formatted byte is written as a two-character token (characters >= 0x80) that stands for "the hex
 * digits of the k-th byte formatted in this context"; vp_hexbyte() reads a token or real digits back.
 * This keeps string lengths concrete; natively the C library formats. */
#ifndef FMTSTUB_H
#define FMTSTUB_H
#include <stdio.h>
#ifdef VP_CBMC
#include <stdarg.h>
#define VP_FMT_CTX 6
#define VP_FMT_MAX 128
static unsigned char vp_fmt_val[VP_FMT_CTX][VP_FMT_MAX];
static int vp_fmt_ctx = -1, vp_fmt_n;
/* the harness opens a formatting context (a packet candidate); tokens number the bytes formatted in it */
static void vp_fmt_open(int ctx) { vp_fmt_ctx = ctx; vp_fmt_n = 0; }
static int vp_fmt(char *dst, unsigned v) {
    VP_MODEL(vp_fmt_ctx >= 0 && vp_fmt_n < VP_FMT_MAX, "formatting outside a packet candidate");
    vp_fmt_val[vp_fmt_ctx][vp_fmt_n] = (unsigned char)v;
    dst[0] = (char)(0x80 | (vp_fmt_n >> 6)); dst[1] = (char)(0x80 | (vp_fmt_n & 0x3f)); dst[2] = 0;
    vp_fmt_n++;
    return 2;
}
static int vp_is02X(const char *f) { return f[0] == '%' && f[1] == '0' && f[2] == '2' && f[3] == 'X' && f[4] == 0; }
int sprintf(char *dst, const char *f, ...) {
    va_list ap; va_start(ap, f);
    VP_MODEL(vp_is02X(f), "sprintf format not modelled");
    unsigned v = va_arg(ap, unsigned char); va_end(ap);  /* cbmc stores small arguments unpromoted; low byte */
    return vp_fmt(dst, v);
}
int snprintf(char *dst, size_t n, const char *f, ...) {
    va_list ap; va_start(ap, f);
    VP_MODEL(vp_is02X(f) && n >= 3, "snprintf format not modelled");
    unsigned v = va_arg(ap, unsigned char); va_end(ap);  /* cbmc stores small arguments unpromoted; low byte */
    return vp_fmt(dst, v);
}
int fprintf(FILE *f, const char *fmt, ...) { return 0; }
int printf(const char *fmt, ...) { return 0; }
#else
static void vp_fmt_open(int ctx) { (void)ctx; }
#endif
static int vp_hexdigit(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
/* value of byte i of an upper-case hex string, -1 if it is not two hex digits */
static int vp_hexbyte(const char *s, int i, int ctx) {
#ifdef VP_CBMC
    if (s[2 * i] < 0 && s[2 * i + 1] < 0) {
        int k = ((s[2 * i] & 0x3f) << 6) | (s[2 * i + 1] & 0x3f);
        return k < VP_FMT_MAX ? (int)vp_fmt_val[ctx][k] : -1;
    }
#endif
    int h = vp_hexdigit(s[2 * i]), l = vp_hexdigit(s[2 * i + 1]);
    return (h < 0 || l < 0) ? -1 : h * 16 + l;
}
#endif
