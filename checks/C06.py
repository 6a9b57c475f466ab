from common import *
def REF_TX(n):
    ncw = (n * 8 + 11) // 12
    return 2 + n + (ncw * 11 + 7) // 8
NB = 20
jobs = []
def job(loc, ln, tag, n, safety=True):
    jobs.append(Job("rx_" + tag, "rxbin.c", ["src/horus_api.c", "src/horus_l2.c"], defs=["VP_LOC=%d" % loc, "VP_LEN=%d" % ln, "VP_NBITS=%d" % NB, "VP_CMP=%d" % n],
                    safety=safety, trace="onfail" if n > 32 else True, stub_out=["horus_l2_decode_rx_packet", "horus_l2_gen_crc16"], fsarray=300, flags=["--slice-formula"],
                    bounds="every bit pattern and every payload of the candidates, unique word at bit %d of %d" % (loc, ln), what="one horus_rx call, binary mode"))
for n in (128, 96, 64, 48, 32, 22):
    job(3, 8 * REF_TX(n) + 3, "complete_%d" % n, n)
for n in (128, 32, 22) if TIER == "quick" else (128, 96, 64, 48, 32, 22):
    job(4, 8 * REF_TX(n) + 3, "one_bit_short_%d" % n, n, safety=False)
if __name__ == "__main__":
    sys.exit(CCheck("C06", jobs, jobs_parallel=6).main())
