/* CRC16 of the telemetry frames against a bit-serial CRC-16/CCITT-FALSE (poly 0x1021, init 0xffff) */
#include "vp.h"
#include "horus_l2.h"
#ifndef VP_N
#define VP_N 20
#endif
static unsigned ref_step(unsigned crc, unsigned char d) {
    crc ^= (unsigned)d << 8;
    for (int i = 0; i < 8; i++)
        crc = (crc & 0x8000) ? ((crc << 1) ^ 0x1021) & 0xffff : (crc << 1) & 0xffff;
    return crc;
}
void vp_harness(void) {
    unsigned char *d = malloc(VP_N);   /* exact size: any other byte read is out of bounds */
    VP_ASSUME(d != 0 || VP_N == 0);
    for (int i = 0; i < VP_N; i++) d[i] = vp_u8();
    unsigned ref = 0xffff;
    for (int i = 0; i < VP_N; i++) ref = ref_step(ref, d[i]);
    unsigned crc = horus_l2_gen_crc16(d, VP_N);
    VP_CHECK(crc == ref, "CRC-16/CCITT-FALSE over the given bytes");
    VP_REACH(VP_N < 2 || crc == 0x1234, "end");
    free(d);
}
