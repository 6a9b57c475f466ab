"""FSKDemodStats: the averaging window over the demodulator's statistics."""


def doc(e, k, tones):
    d = dict(EbNodB=e.int("snr%d" % k, -200, 200), ppm=e.int("ppm%d" % k, -2000, 2000), samp_fft=[k])
    f = [e.int("f%d_%d" % (k, j), 0, 24000) for j in range(tones)]
    for j in range(tones): d["f%d_est" % (j + 1)] = f[j]
    return d, f


def window(e):
    """after every update the figures are those of the samples of the last averaging_time seconds, the newest included"""
    m = e.mod("demodstats")
    n, peak, tones, span = e.params["n"], e.params["peak"], e.params["tones"], e.params["span"]
    s = m.FSKDemodStats(averaging_time=span, peak_hold=peak)
    t = {"now": e.int("t0", 1000000, 2000000)}
    e.clock(lambda: t["now"])
    hist = []
    for k in range(n):
        d, f = doc(e, k, tones)
        if k: t["now"] = t["now"] + e.int("dt%d" % k, 0, 3)
        hist.append((t["now"], d["EbNodB"], d["ppm"], f))
        s.update(d)
        inside = [h for h in hist if h[0] > t["now"] - span]
        e.check(len(inside) > 0, "the newest sample counts")
        c = len(inside)
        sn = [h[1] for h in inside]
        if peak:
            best = sn[0]
            for v in sn[1:]: best = e.ite(v > best, v, best)
            e.check(s.snr == best, "peak SNR of the window")
        else:
            e.check(s.snr == sum(sn) / c, "mean SNR of the window")
        e.check(s.ppm == sum([h[2] for h in inside]) / c, "mean ppm of the window")
        e.check(s.fft == [k], "latest spectrum")
        e.check(e.same(list(s.fest), list(f)), "latest tones")
        e.check(s.fest_mean == sum(f) / len(f), "mean tone")
        if c < len(hist): e.cover("some expired")
    if c == n: e.cover("all inside")


def spacing(e):
    """tone spacing: (last - first) / (tones - 1)"""
    m = e.mod("demodstats")
    s = m.FSKDemodStats()
    e.clock(lambda: 1000000)
    n = e.params["tones"]
    d, f = doc(e, 0, n)
    s.update(d)
    e.check(e.near(s.fest_spacing, (f[n - 1] - f[0]) / (n - 1), 1e-6), "tone spacing")
    e.cover("done")


def missing(e):
    """a document without a required field changes nothing"""
    m = e.mod("demodstats")
    s = m.FSKDemodStats()
    e.clock(lambda: 1000000)
    d, f = doc(e, 0, 4)
    s.update(dict(d))
    before = (s.snr, s.ppm, s.fest_mean, s.fest_spacing, list(s.fest), list(s.fft), len(s.samples))
    d2, f2 = doc(e, 1, 4)
    cut = [k for k in ("EbNodB", "ppm", "f1_est", "f2_est", "samp_fft") if e.flag("no_" + k)]
    for k in cut: d2.pop(k)
    s.update(d2)
    if cut:
        after = (s.snr, s.ppm, s.fest_mean, s.fest_spacing, list(s.fest), list(s.fft), len(s.samples))
        e.check(e.same(list(before), list(after)), "an incomplete document changes the figures")
        e.check(len(e.log("error")) > 0, "not reported")
        e.cover("incomplete")
    else:
        e.check(len(s.samples) == 2, "a complete document is taken")
        e.cover("complete")


def text(e):
    """text from the demodulator: bad JSON changes nothing and never raises; nan entries are read as 0"""
    m = e.mod("demodstats")
    s = m.FSKDemodStats()
    e.clock(lambda: 1000000)
    t = e.pick("text", ["", "{", "[]x", "{\"EbNodB\": inf}", "{\"a\":1}", "\x00",
                        "{\"EbNodB\": nan, \"ppm\": nan, \"f1_est\": 1, \"f2_est\": 3, \"samp_fft\": [nan]}", "{\"EbNodB\": 2.5, \"ppm\": -nan, \"f1_est\": 1, \"f2_est\": 3, \"samp_fft\": []}"])
    s.update(t)
    if "f2_est" in t:
        e.check(s.ppm == 0 and s.fest_mean == 2.0 and s.fest_spacing == 2.0 and s.snr == (0.0 if "B\": nan" in t else 2.5), "nan is read as 0")
        e.cover("taken")
    else:
        e.check(s.snr == -999.0 and len(s.samples) == 0, "bad text changes the figures")
        e.cover("ignored")
