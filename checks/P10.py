from pcommon import *
H = "h_stats.py"
Q = TIER == "quick"
jobs = [PJob("window_%s_%d_%d" % ("peak" if p else "mean", n, t), H, "window", {"n": n, "peak": p, "tones": t, "span": 4}, what="figures over the averaging window", bounds="%d updates 0..3 s apart, %d tones, window 4 s" % (n, t), covers=["some expired", "all inside"] if n > 2 else ["all inside"]) for p in (True, False) for n, t in (((2, 4), (4, 2)) if Q else ((2, 4), (4, 2), (5, 4)))]
jobs += [PJob("spacing_%d" % t, H, "spacing", {"tones": t}, what="tone spacing", bounds="every set of tones 0..24000", covers=["done"]) for t in (2, 4)]
jobs += [PJob("missing", H, "missing", what="incomplete documents", bounds="every subset of required fields", covers=["incomplete", "complete"]),
         PJob("text", H, "text", what="text input", bounds="9 texts", covers=["taken", "ignored"])]
if __name__ == "__main__":
    sys.exit(PCheck("P10", jobs, assumptions=["integer statistics; the clock does not run backwards"]).main())
