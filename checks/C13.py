from common import *
jobs = []
for kind, kn in ((0, "real"), (1, "complex"), (2, "vco")):
    for m, fs, rs, ns in [(4, 800, 100, 5), (2, 400, 100, 8)] + ([(4, 4800, 100, 4), (2, 1200, 300, 50), (4, 800, 100, 50)] if TIER == "thorough" else []):
        jobs.append(Job("%s_M%d_Fs%d_Nsym%d" % (kn, m, fs, ns), "fmod.c", ["src/fsk.c"], defs=["@comp_stub.h", "VP_KIND=%d" % kind, "VP_M=%d" % m, "VP_FS=%d" % fs, "VP_RS=%d" % rs, "VP_P=%d" % (fs // rs), "VP_NSYM=%d" % ns, "VP_F1=%d" % (fs // 8), "VP_TONE=%d" % (fs // 8)],
                        native_flags=["-fno-builtin"], fsarray=2000, unwind=2000, trace="onfail", what="two blocks through the %s modulator" % kn, bounds="every bit content; M=%d Fs=%d Rs=%d Nsym=%d" % (m, fs, rs, ns)))
if __name__ == "__main__":
    sys.exit(CCheck("C13", jobs, jobs_parallel=6, assumptions=["complex multiplication advances the oscillator by the given step (comp_prim.h, floating point, not encoded)"], outside=["block sizes and rates other than those listed"]).main())
