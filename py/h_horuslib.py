"""HorusLib.add_samples: blocks handed to the modem and frames reported, whatever the chunks the audio arrives in."""


class Stats:
    snr_est, sync = 0.0, 0


def world(e, nins, texts, max_in=64, crc=None):
    """stand-ins for the C library: .blocks holds what the modem was given"""
    w = type("W", (), {})()
    w.blocks, w.k, w.asked = [], 0, 0

    class Lib:
        HORUS_MODE_BINARY_V1, HORUS_MODE_RTTY_7N1, HORUS_MODE_RTTY_7N2, HORUS_MODE_RTTY_8N2 = 0, 1, 2, 3
        @staticmethod
        def horus_open_advanced(mode, rate, spacing): return 1
        @staticmethod
        def horus_set_verbose(h, v): pass
        @staticmethod
        def horus_get_max_demod_in(h): return max_in
        @staticmethod
        def horus_get_max_ascii_out_len(h): return 16
        @staticmethod
        def horus_get_mFSK(h): return 4
        @staticmethod
        def horus_close(h): pass
        @staticmethod
        def horus_nin(h):
            w.asked += 1
            e.check(w.asked < 200, "add_samples comes to an end")
            return nins[w.k] if w.k < len(nins) else nins[-1]

        @staticmethod
        def horus_rx(h, out, data, stereo):
            w.blocks.append((data, stereo))
            t = texts[w.k] if w.k < len(texts) else b""
            out.text = t + b"\0" * (16 - len(t))
            w.k += 1
            return len(t)

        @staticmethod
        def horus_get_modem_extended_stats(h, s):
            s.snr_est, s.sync = float(w.k) + 0.5, w.k % 2
        @staticmethod
        def horus_crc_ok(h): return crc[w.k - 1] if crc else 1
        @staticmethod
        def horus_set_freq_est_limits(h, a, b): pass

    class Out:
        text = b""

    class Ffi:
        @staticmethod
        def new(t, init=None):
            if t.startswith("struct"): return Stats()
            return Out() if isinstance(init, int) else init
        @staticmethod
        def cast(t, x): return x
        @staticmethod
        def buffer(o): return o.text
    e.fake("_horus_api_cffi", lib=Lib, ffi=Ffi)
    w.rate = []

    def ratecv(data, width, ch, inrate, outrate, state):
        w.rate.append((width, ch, inrate, outrate, state))
        return data, (len(w.rate),)
    e.fake("audioop", ratecv=ratecv)
    e.fake("asn1tools", compile_files=lambda *a, **k: None)
    w.m = e.mod("demod")
    return w


def chunks(e):
    """any way of cutting the stream gives the same blocks and the same frames"""
    stereo, rtty = e.params.get("stereo", False), e.params.get("rtty", False)
    n, total = e.params["blocks"], e.params["total"]
    lo, hi = e.params.get("nin", (2, 4))
    nins = [e.pick("nin%d" % i, list(range(lo, hi + 1))) for i in range(n)] + [99]
    texts = [e.pick("text%d" % i, e.params.get("texts", ["", "0aFf"])).encode() for i in range(n)]
    crc = [e.int("crc%d" % i, 0, 1) for i in range(n)]
    w = world(e, nins, texts, crc=crc)
    got = []
    h = w.m.HorusLib(mode=w.m.Mode.RTTY_7N2 if rtty else w.m.Mode.BINARY, stereo_iq=stereo, callback=got.append)
    data = e.bytes("audio", total)
    at, last = 0, None
    for k in range(e.params["cuts"] + 1):
        c = e.pick("cut%d" % k, list(range(total - at + 1))) if k < e.params["cuts"] else total - at
        before = len(w.blocks)
        last = h.add_samples(data[at:at + c])
        at += c
        e.check((last is None) == (len(w.blocks) == before), "the last frame of the call is returned")
        # what must have been handed over by now, whatever the cuts
        want, pos = [], 0
        for i in range(n + 1):
            size = nins[i] * 2 * (2 if stereo else 1)
            if at - pos <= size: break
            want.append((pos, size)); pos += size
        e.check(len(w.blocks) == len(want), "blocks handed to the modem")
        for (p, size), (b, st) in zip(want, w.blocks):
            e.check(len(b) == size, "block size")
            e.check(b == data[p:p + size], "block content")
            e.check(st == (1 if stereo else 0), "stereo flag")
    frames = [i for i in range(len(w.blocks)) if i < n and texts[i]]
    e.check(len(got) == len(frames), "each decoded frame is reported once")
    for f, i in zip(got, frames):
        e.check(f.data == ("0aFf" if rtty else b"\x0a\xff"), "frame content")
        e.check(f.crc_pass == crc[i], "frame checksum verdict")
        e.check(f.snr == i + 1.5 and f.sync == bool((i + 1) % 2) and f.extended_stats.snr_est == i + 1.5, "a frame carries the statistics of its own block")
    for i, (width, ch, a, b, st) in enumerate(w.rate):
        e.check(width == 2 and ch == (2 if stereo else 1) and a == 48000 and b == 48000 and st == ((i,) if i else None), "the resampler runs on from block to block")
    if got: e.cover("frames")
    if len(w.blocks) > 1: e.cover("several blocks")


def resampled(e):
    """at other audio rates the blocks are scaled"""
    rate = e.pick("rate", [8000, 24000, 44100, 96000])
    nin = e.pick("nin", [6, 12, 13])
    w = world(e, [nin], [])
    h = w.m.HorusLib(sample_rate=rate)
    total = e.params["total"]
    h.add_samples(e.bytes("audio", total))
    size = int(nin * (rate / 48000)) * 2
    e.check(len(w.blocks) == (total - 1) // size, "number of blocks")
    e.check(all(len(b) == size for b, s in w.blocks), "block size")
    e.check(all(r[2] == rate and r[3] == 48000 for r in w.rate), "rates given to the resampler")
    e.cover("done")


def text(e):
    """what the modem prints becomes the frame: hexadecimal for the binary modes, text for RTTY; anything else is an empty frame"""
    rtty = e.params["rtty"]
    n = e.params["n"]
    t = e.bytes("text", n)
    for c in t: e.assume(c < 128 if e.params.get("ascii", True) else c < 256)
    w = world(e, [4], [t])
    h = w.m.HorusLib(mode=e.pick("mode", [w.m.Mode.RTTY_7N1, w.m.Mode.RTTY_7N2, w.m.Mode.RTTY_8N2]) if rtty else w.m.Mode.BINARY)
    f = h.demodulate(b"\x00" * 8)
    end = n
    for i in range(n):
        if t[i] == 0: end = i; break
    body = t[:end]
    if any(c > 127 for c in t):
        e.check(len(f.data) == 0, "not ASCII: nothing")
        e.cover("not ascii")
    elif rtty:
        e.check(len(f.data) == end, "text up to the terminator")
        for i in range(end): e.check(ord(f.data[i]) == body[i], "text")
        e.cover("text")
    elif all(e.either(e.both(c >= 48, c <= 57), e.both(c >= 65, c <= 70), e.both(c >= 97, c <= 102)) for c in body):
        if end % 2 == 0:
            e.check(len(f.data) == end // 2, "bytes up to the terminator")
            val = lambda c: e.ite(c < 58, c - 48, e.ite(c < 97, c - 55, c - 87))
            for i in range(end // 2): e.check(f.data[i] == val(body[2 * i]) * 16 + val(body[2 * i + 1]), "bytes")
            e.cover("bytes")
        else: e.check(len(f.data) == 0, "odd number of digits: nothing")
    else:
        if not any(e.either(c == 32, e.both(c >= 9, c <= 13)) for c in body):
            e.check(len(f.data) == 0, "not hexadecimal: nothing")
            e.cover("not hexadecimal")
