from common import *
jobs = []
MODES = {"7N1": (89, 9, 7), "7N2": (90, 10, 7), "8N2": (91, 11, 8)}
NB = 10
for name, (mode, step, field) in MODES.items():
    pkt = 120 * step
    for tag, extra in (("complete", 0), ("one_bit_short", -1), ("field_short", -field)):
        loc = 3
        jobs.append(Job("rtty_%s_%s" % (name, tag), "rxrtty.c", ["src/horus_api.c", "src/horus_l2.c"], defs=["VP_MODE=%d" % mode, "VP_LOC=%d" % loc, "VP_LEN=%d" % (pkt + loc + extra), "VP_NBITS=%d" % NB],
                    stub_out=["horus_l2_gen_crc16"], fsarray=300, unwind_fn=[("extract_horus_rtty", 130)], unwindset=["strlen.0:130"], trace="onfail",
                    bounds="every content of the 120-character window", what="one horus_rx call, RTTY %s" % name))
if __name__ == "__main__":
    sys.exit(CCheck("C09", jobs, jobs_parallel=6).main())
