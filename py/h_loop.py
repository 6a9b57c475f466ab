"""The command line uploader's main loop (uploader.main) on arbitrary sequences of input lines and faults."""
import types


class Args:
    def __init__(self, **kw): self.__dict__.update(kw)


class Stats:
    """stands for FSKDemodStats: only the three numbers the loop uses"""
    snr, fest_mean, fest_spacing = 12.5, 1500.25, 270.75

    def __init__(self, *a, **k): self.lines = []
    def update(self, line): self.lines.append(line)


class Uploader:
    def __init__(self, e, k):
        self.e, self.k, self.added, self.closed, self.joined = e, k, [], 0, 0
        if not k.get("inhibit"): self.input_process_thread = self

    def add(self, t):
        self.added.append(t)
        if t.get("add_fails"): raise KeyError("altitude")

    def close(self): self.closed += 1
    def join(self, *a): self.joined += 1


class Log:
    def __init__(self, e): self.e, self.lines = e, []

    def write(self, s):
        # one line may be written in several calls
        if self.lines and self.lines[-1] is not None and self.lines[-1][-1:] != "\n":
            self.lines[-1] += s
            return
        if self.e.flag("disk_full%d" % len(self.lines)):
            self.lines.append(None)
            raise OSError("no space left on device")
        self.lines.append(s)

    def writelines(self, ss):
        for s in ss: self.write(s)

    def flush(self): pass
    def close(self): pass


def world(e, lines, faults=True, **kw):
    m = e.mod("uploader")
    a = dict(config="user.cfg", noupload=False, rtty=False, log="telemetry.log", debuglog="d", payload_list="p", custom_fields="c", nodownload=True, freq_hz=None, freq_target_hz=None, baud_rate=None, verbose=False)
    a.update(kw)
    args = Args(**a)
    w = types.SimpleNamespace(m=m, read=0, sent=[], log=Log(e) if faults else types.SimpleNamespace(lines=[]), up=None, stats=None, downloads=0)
    if not faults:
        w.log.write, w.log.flush, w.log.close = w.log.lines.append, lambda: None, lambda: None

    def readline():
        w.read += 1
        if w.read <= len(lines): return lines[w.read - 1]
        if w.read > len(lines) + 1: e.fail("reads on after the end of its input")
        return ""

    def leave(code=0): raise SystemExit(code)

    class Stdin:
        def readline(self, *a): return readline()
        def __iter__(self): return self

        def __next__(self):
            x = readline()
            if not len(x): raise StopIteration
            return x
    e.patch(m, "sys", types.SimpleNamespace(stdin=Stdin(), exit=leave, stdout=None, stderr=None))

    class Parser:
        def __init__(self, *a, **k): pass
        def add_argument(self, *a, **k): pass
        def parse_args(self, *a, **k): return args
    e.patch(m, "argparse", types.SimpleNamespace(ArgumentParser=Parser, ArgumentDefaultsHelpFormatter=None))
    e.patch(m, "read_config", lambda f: dict(user_call="N0CALL", ozi_udp_port=1, summary_port=55672, station_lat=0.0, station_lon=0.0, radio_comment="", antenna_comment=""))
    e.patch(m, "open", lambda *a, **k: w.log)
    for n in ("read_payload_list", "read_custom_field_list"): e.patch(m, n, lambda *a, **k: {})

    def download(*a, **k):
        w.downloads += 1
        return {}
    e.patch(m, "init_payload_id_list", download)
    e.patch(m, "init_custom_field_list", lambda *a, **k: {})

    def mk(**k):
        w.up = Uploader(e, k)
        return w.up
    e.patch(m, "SondehubAmateurUploader", mk)

    def stats(*a, **k):
        w.stats = Stats()
        return w.stats
    e.patch(m, "FSKDemodStats", stats)
    e.patch(m, "send_payload_summary", lambda t, port=None, **k: w.sent.append((t, port)))
    return w


def ended(e, w, n):
    e.check(w.read == n + 1, "the loop stopped after line %d of %d" % (w.read, n))
    e.check(w.up.closed == 1, "the uploader is not closed at the end")


def any_line(e):
    """one arbitrary line: whatever it holds, the loop goes on to the next one"""
    text = e.str("line", e.params["n"]) + "\n"
    w = world(e, [text, "zz\n"], faults=False)
    e.patch(w.m, "decode_packet", lambda *a, **k: (_ for _ in ()).throw(ValueError("no packet")))
    e.patch(w.m, "parse_ukhas_string", lambda *a, **k: (_ for _ in ()).throw(ValueError("no sentence")))
    w.m.main()
    ended(e, w, 2)
    e.check(w.sent == [] and w.up.added == [] and w.log.lines == [], "something is reported for a line that is no packet")
    e.cover("went on")


def short_hex(e):
    """a hexadecimal line too short for any packet, through the real decoder"""
    data = e.bytes("d", e.params["n"])
    w = world(e, [data.hex() + "\n"], faults=False)
    w.m.main()
    ended(e, w, 1)
    e.check(w.sent == [] and w.up.added == [] and w.log.lines == [], "reported")
    e.cover("went on")


RTTY, HEX = "$$$A,1*0000\n", "00ff\n"


class Odd(Exception):
    pass


def sequence(e):
    """every sequence of line kinds, decoder outcomes and sink faults: each decoded packet is sent, queued and logged once"""
    n = e.params["n"]
    lines, truth, results = [], [], []
    opt = e.pick("opt", [dict(), dict(freq_hz=433000000.0, baud_rate=100)])
    for k in range(n):
        kind = e.pick("kind%d" % k, ["rtty", "hex", "stats", "blank"])
        lines.append({"rtty": RTTY, "hex": HEX, "stats": '{"x": 1}\n', "blank": "\n"}[kind])
        truth.append((k, kind))
    w = world(e, lines, **opt)

    def outcome(rtty):
        k = w.read - 1
        o = e.pick("out%d" % k, ["packet", "ValueError", "odd error", "packet, add fails"])
        if o == "ValueError": raise ValueError("bad CRC 50% %s")
        if o == "odd error": raise Odd("{not a format %d}")
        d = dict(callsign="A", k=k)
        if not rtty: d.update(ukhas_str="$$A,%d" % k, packet_format={})
        if o != "packet": d["add_fails"] = True
        results.append((k, rtty, d))
        return d
    e.patch(w.m, "decode_packet", lambda b, *a, **kw: outcome(False))
    e.patch(w.m, "parse_ukhas_string", lambda s, *a, **kw: outcome(True))
    w.m.main()
    ended(e, w, n)
    e.check([t for t, p in w.sent] == [d for k, r, d in results], "packets broadcast: every decoded one, once, in order")
    e.check(all(p == 55672 for t, p in w.sent), "broadcast port")
    e.check(w.up.added == [d for k, r, d in results], "packets queued for upload: every decoded one, once, in order")
    e.check(w.stats.lines == ['{"x": 1}' for k, kind in truth if kind == "stats"], "statistics lines")
    for k, r, d in results:
        e.check(d["snr"] == 12.5 and d["tone_spacing"] == 270, "SNR and tone spacing are attached")
        if opt: e.check(d["f_centre"] == 433001500 and d["baud_rate"] == 100, "frequency and baud rate are attached")
        else: e.check("f_centre" not in d and "baud_rate" not in d, "no frequency or baud rate was given")
    want = [("$$A,1*0000" if r else d["ukhas_str"]) + "\n" for k, r, d in results if "add_fails" not in d]
    e.check(len(w.log.lines) == len(want) and all(a is None or a == b for a, b in zip(w.log.lines, want)), "log file lines")
    if len(results) > 1: e.cover("several packets")


def refresh(e):
    """an unknown payload id refreshes the lists, at most once in 30 minutes, and the packet is decoded again"""
    n = e.params["n"]
    w = world(e, [HEX] * n, faults=False, nodownload=e.params.get("nodownload", False))
    state = {"now": e.int("start", 1600000000, 1700000000), "n": 0}
    e.clock(lambda: state["now"])
    failed, calls = [], []

    def decode(b, *a, **k):
        k = w.read - 1
        fresh = not calls or calls[-1][0] != k
        if fresh and k: state["now"] = state["now"] + e.int("wait%d" % k, 1, 4000)
        unknown = e.flag("unknown%d_%d" % (k, 0 if fresh else 1))
        calls.append((k, unknown, w.downloads, state["now"]))
        if not fresh and e.flag("fails%d" % k):                          # the new lists may make this very packet undecodable
            failed.append(k)
            raise ValueError("no such field")
        return dict(callsign="UNKNOWN_PAYLOAD_ID" if unknown else "A", ukhas_str="$$A", packet_format={}, call=len(calls))
    e.patch(w.m, "decode_packet", decode)
    w.m.main()
    ended(e, w, n)
    base = 0 if e.params.get("nodownload", False) else 1                 # the lists are also loaded once at the start
    e.check(len(w.sent) == len(w.up.added) == n - len(failed), "every packet is reported once")
    last = None
    for j in range(len(calls)):
        k, unknown, d, t = calls[j]
        first = j == 0 or calls[j - 1][0] != k
        if not first: continue
        again = j + 1 < len(calls) and calls[j + 1][0] == k
        if again:
            e.cover("refreshed")
            e.check(unknown and calls[j + 1][2] == d + 1, "decoded again without new lists")
            if last is not None: e.check(t - last >= 1800, "lists downloaded again within 30 minutes")
            last = t
            if k not in failed: e.check(any(t["call"] == j + 2 for t in w.up.added), "the result with the new lists is reported")
        elif unknown and base:
            e.check(last is None and k == 0 or (last is not None and t - last <= 1800), "an unknown payload does not refresh the lists")
    if not base: e.check(w.downloads == 0, "downloads although told not to")
    else: e.check(w.downloads <= 1 + len([1 for j in range(1, len(calls)) if calls[j][0] == calls[j - 1][0]]), "further downloads")


def interrupt(e):
    """CTRL-C ends the loop in order; so does --noupload"""
    w = world(e, [HEX], faults=False, noupload=e.flag("noupload"))
    e.patch(w.m, "decode_packet", lambda *a, **k: (_ for _ in ()).throw(KeyboardInterrupt() if e.flag("ctrl_c") else ValueError("x")))
    w.m.main()
    e.check(w.up.closed == 1, "the uploader is not closed")
    e.cover("ended")
