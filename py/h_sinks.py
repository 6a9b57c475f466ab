"""Where decoded packets go: SondeHub reformatting, UDP summaries, OziMux messages."""
import json, types

META = dict(software_name="horusdemodlib", software_version="0", uploader_callsign="N0CALL", uploader_position=None, uploader_radio="r", uploader_antenna="a", time_received="2024-01-01T00:00:00.000000Z")


def two(v): return f"{v:02d}"


def mapping(e):
    """telem_to_sondehub: every field it passes on, with its unit, and no other"""
    m = e.mod("utils")
    t_h, t_m, t_s = 12, 30, 5
    e.now(20000, t_h * 3600 + t_m * 60 + t_s, 0)
    group = e.params["group"]
    alt, seq = e.int("alt", -1000, 65535), e.int("seq", 0, 65535)
    t = dict(callsign="VK5ARG", time="12:30:05", sequence_number=seq, latitude=-34.5, longitude=138.25, altitude=alt, raw="00FF", modulation="Horus Binary v2", packet_format={}, crc_ok=True, payload_id="VK5ARG", ukhas_str="$$")
    want = dict(datetime="2024-10-04T12:30:05.000000Z", payload_callsign="VK5ARG", frame=seq, lat=-34.5, lon=138.25, alt=alt, raw="00FF", modulation="Horus Binary v2")

    def opt(key, out, v, keep=True):
        if e.flag("has_" + key):
            t[key] = v
            if keep: want[out] = v
    if group == "numbers":
        temp = e.int("temp", -500, 500)
        opt("temperature", "temp", temp, temp > -273.15)
        opt("satellites", "sats", e.int("sats", 0, 255))
        opt("speed", "speed", e.int("speed", 0, 512))
        batt = e.int("batt", -5, 20)
        opt("battery_voltage", "batt", batt, batt >= 0)
    elif group == "floats":
        snr = e.float("snr")
        e.assume(e.both(snr >= -1000.0, snr <= 1000.0))
        opt("snr", "snr", snr, snr > -100.0)
        fc = e.int("fc", 0, 2000000000)
        if e.flag("has_f"):
            t["f_centre"] = fc
            want["frequency"] = fc / 1e6
        opt("tone_spacing", "tone_spacing", e.int("ts", 0, 2000))
        opt("baud_rate", "baud_rate", e.int("br", 1, 20000))
    elif group == "rest":
        opt("vel_h", "vel_h", e.int("vh", -100, 100))
        opt("vel_v", "vel_v", e.int("vv", -100, 100))
        opt("modulation_detail", "modulation_detail", "x")
    elif group == "custom":
        n = e.pick("names", [["a", "b"], ["b", "missing", "a"], [], ["a"]])
        t["custom_field_names"] = n
        va, vb = e.int("va", -10**6, 10**6), e.str("vb", 4, 32, 126)
        t["a"], t["b"] = va, vb
        for k in n:
            if k in t: want[k] = t[k]
    given = dict(META) if e.params.get("meta", True) else None
    if given is not None: want.update(META)
    before = list(t)
    out = m.telem_to_sondehub(t, metadata=given)
    e.check(out is not None, "a good packet is dropped")
    e.check(sorted(out) == sorted(want), "fields passed on: %s" % ",".join(sorted(set(out) ^ set(want))))
    for k in want: e.check(e.same(out[k], want[k]), "value of %s" % k)
    e.check(list(t) == before, "the packet itself is changed")
    e.cover("passed on")


def filters(e):
    """what is not uploaded: packets for other networks, unknown payloads, packets without a position or with a time too far off"""
    m = e.mod("utils")
    now = e.int("now", 2 * 3600, 22 * 3600 - 1)
    e.now(20000, now, 0)
    h, mi, s = e.int("h", 1, 22), e.int("m", 0, 59), e.int("s", 0, 59)
    check = e.params["check"]
    call = "VK5ARG" if check else e.pick("call", ["UNKNOWN_PAYLOAD_ID", "4FSKTEST-V2", "VK5ARG"])
    via = None if check else e.pick("via", [None, "sondehub", "nohub", "unknown"])
    t = dict(callsign=call, time=two(h) + ":" + two(mi) + ":" + two(s), sequence_number=1, latitude=1.5, longitude=2.5, altitude=3)
    if via is not None: t["via"] = via
    if not check and e.flag("no_altitude"): t.pop("altitude")
    out = m.telem_to_sondehub(t, metadata=dict(META), check_time=check)
    d = h * 3600 + mi * 60 + s - now
    near = e.both(d <= 180, d >= -180)
    want = call != "UNKNOWN_PAYLOAD_ID" and via in (None, "sondehub") and "altitude" in t
    if out is None:
        e.cover("dropped")
        if want: e.check(check and e.neg(near), "a packet for SondeHub is dropped")
    else:
        e.cover("passed on")
        e.check(want, "a packet that must not be uploaded is passed on")
        if check: e.check(near, "a packet whose time is minutes off is passed on")


class Net:
    """socket module whose calls fail at will"""

    def __init__(self, e):
        self.e, self.sent, self.tried, self.opened, self.closed, self.calls, self.faults = e, [], [], 0, 0, 0, 0

    def maybe(self, what):
        self.calls += 1
        if self.e.flag("fault_%s%d" % (what, self.calls)):
            self.faults += 1
            raise (TimeoutError("timed out") if what == "send" and self.e.flag("slow%d" % self.calls) else OSError("no " + what))

    def module(self):
        net = self

        class Sock:
            def settimeout(self, *a): pass
            def setsockopt(self, *a): net.maybe("option") if net.e.params.get("options") else None
            def bind(self, *a): net.maybe("bind")
            def sendto(self, data, addr):
                net.tried.append(addr)
                net.maybe("send")
                net.sent.append((data, addr))
            def close(self): net.closed += 1
            def __enter__(self): return self
            def __exit__(self, *a): self.close()

        def socket(*a, **k):
            net.maybe("socket")
            net.opened += 1
            return Sock()
        return types.SimpleNamespace(socket=socket, AF_INET=2, SOCK_DGRAM=2, SOL_SOCKET=1, SO_BROADCAST=6, SO_REUSEADDR=2, SO_REUSEPORT=15, error=OSError, timeout=TimeoutError, gaierror=type("gaierror", (OSError,), {}), herror=type("herror", (OSError,), {}))


def summary_faults(e):
    """send_payload_summary never raises, sends at most one datagram, to the broadcast address or else to this host"""
    m = e.mod("horusudp")
    net = Net(e)
    e.patch(m, "socket", net.module())
    t = dict(callsign="A", latitude=1.5, longitude=2.5, altitude=3, time="01:02:03")
    for k in ("callsign", "altitude", "time"):
        if e.flag("no_" + k): t.pop(k)
    full = len(t) == 5
    port = e.int("port", 1, 65535)
    if e.flag("ozi"): m.send_ozimux_message(dict(t), port=port)
    else: m.send_payload_summary(dict(t), port=port)
    e.check(len(net.sent) <= 1, "sent twice")
    if not full:
        if "altitude" not in t or "time" not in t: e.check(net.sent == [], "sent without its fields")
    for data, addr in net.sent:
        e.check(addr[1] == port, "port")
        e.check(addr[0] in ("<broadcast>", "127.0.0.1"), "address")
        e.cover("to " + addr[0])
    if net.sent == [] and full:
        e.cover("failed")
        e.check(len(e.log("error")) > 0, "a summary that cannot be sent is not reported")
    if net.faults == 0 and full: e.check(len(net.sent) == 1 and net.sent[0][1][0] == "<broadcast>", "broadcast when nothing fails")
    if full and net.tried and net.tried[0][0] == "<broadcast>" and not any(a[0] == "<broadcast>" for d, a in net.sent):
        e.check(len(net.tried) > 1 and net.tried[1][0] == "127.0.0.1", "a failed broadcast is not sent to this host instead")


def summary(e):
    """the summary's content"""
    m = e.mod("horusudp")
    got = []

    class Sock:
        def __getattr__(self, n): return lambda *a: None
        def sendto(self, data, addr): got.append(data)
    e.patch(m, "socket", types.SimpleNamespace(socket=lambda *a: Sock(), AF_INET=2, SOCK_DGRAM=2, SOL_SOCKET=1, SO_BROADCAST=6, SO_REUSEADDR=2, SO_REUSEPORT=15, error=OSError))
    packets = []

    def dumps(x, **k):
        packets.append(x)
        return "{}"
    e.patch(m, "json", types.SimpleNamespace(dumps=dumps))
    lat, lon = e.float("lat"), e.float("lon")
    e.assume(e.both(lat >= -90.0, lat <= 90.0, lon >= -180.0, lon <= 180.0))
    alt = e.int("alt", -1000, 65535)
    t = dict(callsign="A", latitude=lat, longitude=lon, altitude=alt, time="01:02:03")
    want = dict(type="PAYLOAD_SUMMARY", callsign="A", latitude=lat, longitude=lon, altitude=alt, speed=-1, heading=-1, time="01:02:03", temp=-1, sats=-1, batt_voltage=-1)
    for key, out, lo, hi in (("snr", "snr", -999, 100), ("satellites", "sats", 0, 255), ("battery_voltage", "batt_voltage", 0, 5), ("speed", "speed", 0, 512), ("f_centre", "frequency", 0, 2000000000)):
        if e.flag("has_" + key):
            t[key] = v = e.int(key, lo, hi)
            want[out] = v / 1e6 if key == "f_centre" else v
    if e.flag("custom"):
        t["custom_field_names"] = ["x", "gone"]
        t["x"] = want["x"] = e.int("x", -9, 9)
    m.send_payload_summary(t, port=1, comment="c")
    want["comment"] = "c"
    if e.both(lat == 0.0, lon == 0.0):
        e.cover("no position")
        e.check(got == [] and packets == [], "sent without a position")
        return
    e.cover("sent")
    e.check(len(got) == 1 and len(packets) >= 1, "one summary")
    p = packets[0]
    e.check(sorted(p) == sorted(want), "fields")
    for k in want: e.check(e.same(p[k], want[k]), "value of %s" % k)


def ozimux(e):
    m = e.mod("horusudp")
    got = []

    class Sock:
        def __getattr__(self, n): return lambda *a: None
        def sendto(self, data, addr): got.append(data)
    e.patch(m, "socket", types.SimpleNamespace(socket=lambda *a: Sock(), AF_INET=2, SOCK_DGRAM=2, SOL_SOCKET=1, SO_BROADCAST=6, SO_REUSEADDR=2, SO_REUSEPORT=15, error=OSError))
    lat, lon, alt = e.float("lat"), e.float("lon"), e.int("alt", -1000, 65535)
    e.assume(e.both(lat >= -90.0, lat <= 90.0, lon >= -180.0, lon <= 180.0))
    r = m.send_ozimux_message(dict(time="01:02:03", latitude=lat, longitude=lon, altitude=alt), port=9)
    want = "TELEMETRY,01:02:03," + f"{lat:.5f}" + "," + f"{lon:.5f}" + "," + str(alt) + "\n"
    e.check(e.same(r, want), "the sentence")
    e.check(len(got) == 1 and e.same(got[0], want.encode("ascii")), "what is sent")
    e.cover("sent")
