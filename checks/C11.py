from common import *
jobs = []
for name, mode in (("binary", 0), ("7N1", 89), ("7N2", 90), ("8N2", 91)):
    jobs.append(Job("open_close_%s" % name, "life.c", ["src/horus_api.c"], defs=["VP_PART=1", "VP_MODE=%d" % mode], fsarray=4000, leaks=True, trace="onfail",
                    bounds="every requested or default rate 1..4800 and tone spacing 1..5000", what="horus_open / horus_open_advanced, getters, horus_close"))
for fs, rs, m, p, ns in [(800, 100, 4, 8, 6), (800, 100, 2, 8, 6), (1600, 100, 4, 4, 3)] + ([(4800, 100, 4, 8, 8), (2400, 300, 2, 8, 50)] if TIER == "thorough" else []):
    jobs.append(Job("modem_%d_%d_%d_%d_%d" % (fs, rs, m, p, ns), "life.c", ["src/fsk.c"], defs=["VP_PART=2", "VP_FS=%d" % fs, "VP_RS=%d" % rs, "VP_M=%d" % m, "VP_P=%d" % p, "VP_NSYM=%d" % ns], fsarray=2000,
                    leaks=True, trace="onfail", bounds="Fs=%d Rs=%d M=%d P=%d Nsym=%d, every estimator range" % (fs, rs, m, p, ns), what="fsk_create_hbr, setters, fsk_destroy"))
if __name__ == "__main__":
    sys.exit(CCheck("C11", jobs, jobs_parallel=6, assumptions=["memory allocation succeeds (the code asserts it)"], outside=["modem configurations other than those listed", "kiss_fft_alloc (replaced by an allocation)"]).main())
