from common import *
jobs = []
MODES = [("binary", 0, 16), ("7N1", 89, 18), ("7N2", 90, 20), ("8N2", 91, 22)]
def job(name, mode, case, nb, ln, cnt, what, bounds, extra=()):
    jobs.append(Job(name, "rxuw.c", ["src/horus_api.c"], defs=["VP_MODE=%d" % mode, "VP_CASE=%d" % case, "VP_NBITS=%d" % nb, "VP_LEN=%d" % ln, "VP_CNT=%d" % cnt, "VP_NIN=2"] + list(extra),
                    fsarray=300, trace="onfail", unwind=104, what=what, bounds=bounds))
for name, mode, uwl in MODES:
    nb = 16 if TIER == "quick" else 32
    job("search_%s" % name, mode, 1, nb, nb + uwl + 24, 0, "one horus_rx call, %s unique word" % name, "every content of the bit buffer, %d new bits, nothing tracked before" % nb)
    for cnt in ([3] if TIER == "quick" else [1, 3, 8]):
        n2 = uwl // 2 + 2
        job("list_%s_%d" % (name, cnt), mode, 2, n2, n2 + uwl + 16, cnt, "one horus_rx call, %s unique word repeated all over the stream" % name, "every value of %d tracked positions, %d new bits" % (cnt, n2))
for cnt in (31, 32):
    job("list_full_%d" % cnt, 0, 2, 10, 40, cnt, "one horus_rx call with %d positions tracked before" % cnt, "every value of the %d tracked positions, 10 new bits" % cnt, ["VP_FULL"])
if __name__ == "__main__":
    sys.exit(CCheck("C08", jobs, jobs_parallel=6, assumptions=["the modem delivers bits of value 0 or 1 (C12)", "tracked positions are -1 or inside the buffer (established by the same call)"],
                    outside=["product values of buffer length (3740, 1130.. bits) and bits per call (50, 100): smaller ones are encoded, the code takes both from the state"]).main())
