from common import *
jobs = []
def job(part, fs, rs, m, p, ns, ndft, dnin, tone, mask, lo, hi, s0=0, s1=0):
    nm = "%s_Ts%d_M%d_P%d_nin%+d%s%s" % (["", "safety", "symbols", "estimator"][part], fs // rs, m, p, dnin, "_mask" if mask else "", "_%d" % s0 if part == 2 else "")
    jobs.append(Job(nm, "demod.c", ["src/fsk.c"], product_defs=True, defs=["@comp_stub.h", "VP_PART=%d" % part, "VP_FS=%d" % fs, "VP_RS=%d" % rs, "VP_M=%d" % m, "VP_P=%d" % p, "VP_NSYM=%d" % ns, "VP_NDFT=%d" % ndft,
                    "VP_DNIN=%d" % dnin, "VP_TONE=%d" % tone, "VP_MASK=%d" % mask, "VP_LO=(%d)" % lo, "VP_HI=%d" % hi, "VP_SYM0=%d" % s0, "VP_SYM1=%d" % s1], native_flags=["-fno-builtin"],
                    fsarray=400, unwind=200, unwind_fn=[("fsk_demod_freq_est", ndft + 2)], stub_out=["fsk_demod_freq_est"] if part == 1 else [], trace="onfail", what="one fsk_demod_core call", bounds="Fs=%d Rs=%d M=%d P=%d Nsym=%d nin=N%+d" % (fs, rs, m, p, ns, dnin)))
job(1, 200, 100, 4, 2, 20, 32, 0, 30, 0, -100, 100)
job(1, 200, 100, 2, 2, 20, 32, 1, 60, 1, -40, 90)
job(1, 200, 100, 4, 2, 20, 32, -1, 20, 1, 0, 100)
job(1, 400, 100, 2, 4, 20, 64, 2, 60, 0, -100, 200)
job(3, 200, 100, 4, 2, 20, 32, 0, 30, 0, -100, 100)
job(3, 200, 100, 2, 2, 20, 32, 1, 60, 1, -40, 90)
job(3, 200, 100, 4, 2, 20, 32, -1, 20, 1, 0, 100)
job(2, 200, 100, 4, 2, 20, 32, 0, 30, 0, 0, 0, 0, 6)
job(2, 200, 100, 4, 2, 20, 32, 0, 30, 0, 0, 0, 13, 19)
job(2, 200, 100, 2, 2, 20, 32, 0, 60, 0, 0, 0, 0, 12)
if __name__ == "__main__":
    sys.exit(CCheck("C12", jobs, jobs_parallel=7,
        assumptions=["complex arithmetic, transform, atan2f are arbitrary (safety, estimator) or an exact correlator (symbols); sqrt is monotone", "samples are finite (they come from 16-bit integers)"],
        outside=["signal processing accuracy (floating point): detection in noise, frequency tracking", "modem geometries other than those listed"]).main())
