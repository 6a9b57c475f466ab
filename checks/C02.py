from common import *
L = ["src/horus_l2.c", "src/golay23.c"]
jobs = []
for n in (128, 96, 64, 48, 32, 22, 16, 1, 2, 3, 4, 5, 6, 7):
    jobs.append(Job("roundtrip_%d" % n, "l2.c", L, defs=["VP_N=%d" % n, "VP_MODE=2"], bounds="every %d-byte payload" % n, what="decode(encode(p)) == p"))
sys.exit(CCheck("C02", jobs, jobs_parallel=6).main())
