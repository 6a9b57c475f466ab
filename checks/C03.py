from common import *
L = ["src/horus_l2.c", "src/golay23.c"]
jobs = []
for n in (128, 96, 64, 48, 32, 22, 16):
    jobs.append(Job("tolerance_%d" % n, "l2.c", L, defs=["VP_N=%d" % n, "VP_MODE=3", "VP_GOLAY_STUB"], stub_out=["golay23_decode", "golay23_init"], bounds="every %d-byte payload, every pattern of <=3 errors in each codeword" % n, what="error tolerance"))
sys.exit(CCheck("C03", jobs, jobs_parallel=7).main())
