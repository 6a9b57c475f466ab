"""decode_packet on Horus Binary v3 frames: from the ASN.1 values to the telemetry, over every presence pattern and value.
The ASN.1 decoder is a stand-in giving arbitrary values within the constraints of HorusBinaryV3.asn1."""
import binascii


def setup(e, objs):
    e.fake("asn1tools", compile_files=lambda *a, **k: None)
    d = e.mod("decoder")
    todo, seen = list(objs), []

    class Asn:
        @staticmethod
        def decode(name, data, **kw):
            seen.append((name, data, kw))
            return todo.pop(0)

    class Json:
        docs = []

        @staticmethod
        def dumps(o, *a, **k):
            Json.docs.append(o)
            return "doc%d" % len(Json.docs)
    e.patch(d, "HORUS_ASN", Asn)
    e.patch(d, "json", Json)
    return d, seen, Json.docs


def frame(e, name, n=24):
    f = e.bytes(name, n)
    e.assume(binascii.crc_hqx(f[2:], 0xffff) == f[0] + 256 * f[1])
    return f


def base(e, k=""):
    return {"payloadCallsign": e.pick("call" + k, ["VK5QI", "a/-9"]) if k else "VK5QI", "sequenceNumber": e.int("seq" + k, 0, 65535), "timeOfDaySeconds": e.int("tod" + k, 0, 86399),
            "latitude": e.int("lat" + k, -9000000, 9000000), "longitude": e.int("lon" + k, -18000000, 18000000), "altitudeMeters": e.int("alt" + k, -1000, 50000)}


def two(v): return f"{v:02d}"


def decode(e, d, seen, f):
    out = d.decode_packet(f)
    name, data, kw = seen[-1]
    e.check(name == "Telemetry" and data == f[2:] and kw.get("check_constraints"), "the frame after its checksum is decoded, with the constraints checked")
    e.check(out["crc_ok"] is True and out["modulation"] == "Horus Binary v3", "marked as a good v3 packet")
    return out


def copy(v):
    return {k: copy(x) for k, x in v.items()} if isinstance(v, dict) else [copy(x) for x in v] if isinstance(v, list) else v


def required(e, out, o):
    e.check(out["payload_id"] == o["payloadCallsign"] and out["callsign"] == o["payloadCallsign"], "callsign")
    e.check(out["sequence_number"] == o["sequenceNumber"], "sequence number")
    e.check(e.near(out["latitude"], o["latitude"] / 100000, 1e-9), "latitude in degrees")
    e.check(e.near(out["longitude"], o["longitude"] / 100000, 1e-9), "longitude in degrees")
    t = o["timeOfDaySeconds"]
    e.check(out["time"] == two(t // 3600) + ":" + two(t // 60 % 60) + ":" + two(t % 60), "time of day")
    if "altitude" in out: e.check(out["altitude"] == o["altitudeMeters"], "altitude")
    e.check(("altitude" in out) == (o["altitudeMeters"] != -1000), "no altitude when it is marked invalid")


def listed(e, out, custom, fields):
    e.check(sorted(out["custom_field_names"]) == sorted(custom), "the custom fields listed are those present")
    for n in fields + custom: e.check(n in out, "field %s missing" % n)
    names = [f[0] for f in out["packet_format"]["fields"]]
    want = ["payload_id", "sequence_number", "latitude", "longitude"] + (["altitude"] if "altitude" in out else []) + fields
    e.check(sorted(names) == sorted(want), "the format lists the fields present")


def doc(e, docs, out, o):
    e.check(out["ukhas_str"] == "doc%d" % len(docs), "the text form is the JSON of the decoded values")
    e.check(e.same(docs[-1], {k: (v.hex() if k == "customData" else v) for k, v in o.items()}), "JSON of the decoded values")


ALL = ["satellites", "speed", "ascent_rate", "ext_pressure", "ext_humidity", "temperature", "ext_temperature", "temperature_custom_1", "temperature_custom_2", "battery_voltage", "solar_voltage",
       "custom1_voltage", "custom2_voltage", "gnss_power_save_state", "custom_data"] + ["count_%d" % i for i in range(8)]
PLAIN = ["satellites", "speed", "temperature", "battery_voltage"]


def group(e):
    """one group of optional fields, every presence pattern"""
    which = e.params["group"]
    e.now(20000, e.int("clock", 0, 86399), 250000)
    o, want = base(e), {}
    if which == "numbers":
        for key, name, lo, hi, div in (("gnssSatellitesVisible", "satellites", 0, 31, 1), ("velocityHorizontalKilometersPerHour", "speed", 0, 512, 1), ("ascentRateCentimetersPerSecond", "ascent_rate", -32767, 32767, 100),
                                       ("pressurehPa-x10", "ext_pressure", 0, 12000, 10), ("humidityPercentage", "ext_humidity", 0, 100, 1)):
            if e.flag("has_" + name):
                o[key] = e.int(name, lo, hi)
                want[name] = o[key] / div if div > 1 else o[key]
    if which == "temperatures" and e.flag("has"):
        o["temperatureCelsius-x10"] = {}
        for key, name in (("internal", "temperature"), ("external", "ext_temperature"), ("custom1", "temperature_custom_1"), ("custom2", "temperature_custom_2")):
            if e.flag("has_" + name):
                o["temperatureCelsius-x10"][key] = e.int(name, -1023, 1023)
                want[name] = o["temperatureCelsius-x10"][key] / 10
    if which == "voltages" and e.flag("has"):
        o["milliVolts"] = {}
        for key in ("battery", "solar", "custom1", "custom2"):
            if e.flag("has_" + key):
                o["milliVolts"][key] = e.int(key, 0, 16383)
                want[key + "_voltage"] = o["milliVolts"][key] / 1000
    if which == "counts":
        n = e.pick("n", list(range(9)))
        if n:
            o["counts"] = [e.int("c%d" % i, -1000000, 1 << 40) for i in range(n)]
            for i in range(n): want["count_%d" % i] = o["counts"][i]
    if which == "misc":
        if e.flag("has_gnss"): want["gnss_power_save_state"] = o["gnssPowerSaveState"] = e.pick("gnss", ["psmNotActive", "enabled", "acquisition", "tracking", "optimised", "inactive"])
        if e.flag("has_via"): o["via"] = e.pick("via", ["sondehub", "nohub", "unknown"])
        if e.flag("has_data"):
            o["customData"] = e.bytes("data", e.params.get("n", 3))
            want["custom_data"] = o["customData"].hex()
    orig = copy(o)
    d, seen, docs = setup(e, [o])
    out = decode(e, d, seen, frame(e, "f"))
    required(e, out, orig)
    for n in ALL:
        e.check((n in out) == (n in want), "%s present or not" % n)
        if n in want:
            v = want[n]
            e.check(e.near(out[n], v, 1e-9) if not isinstance(v, str) and n != "custom_data" else out[n] == v, "value of %s" % n)
    e.check(out.get("via") == orig.get("via"), "via")
    listed(e, out, [n for n in want if n not in PLAIN], [n for n in want if n in PLAIN])
    doc(e, docs, out, orig)
    e.cover("all present" if len(want) >= {"numbers": 5, "temperatures": 4, "voltages": 4, "counts": 8, "misc": 2, "base": 0}[which] else "some absent")


def sensor(e, k, named, kind):
    s = {}
    if named: s["name"] = named
    if kind == "none": return s, []
    if kind == "horusInt":
        v = [e.int("%s_i%d" % (k, i), -(1 << 40), 1 << 40) for i in range(e.params.get("len", 2))]
        s["values"] = (kind, v)
        return s, [("_%d" % i, x) for i, x in enumerate(v)]
    if kind == "horusReal":
        v = [e.float("%s_r%d" % (k, i)) for i in range(2)]
        s["values"] = (kind, v)
        return s, [("_%d" % i, x) for i, x in enumerate(v)]
    if kind == "horusStr":
        s["values"] = (kind, e.pick(k + "_s", ["", "Ab 9+/=-."]) if len(e.params["plan"]) == 1 else "Ab 9+/=-.")
        return s, [("", s["values"][1])]
    v = {"b%d" % i: e.bool("%s_b%d" % (k, i)) for i in range(8)}
    s["values"] = ("horusBool", v)
    return s, [("_" + n, x) for n, x in v.items()]


KINDS = ["horusInt", "horusReal", "horusStr", "horusBool", "none"]


def packet_of(e, tag, kinds):
    """a packet with one extra sensor per kind, each named or not"""
    o = base(e, tag)
    o["altitudeMeters"], o["timeOfDaySeconds"] = 812, 40000
    info = []
    o["extraSensors"] = []
    for i, kind in enumerate(kinds):
        named = "s%d%s" % (i, tag) if e.flag("named%s_%d" % (tag, i)) else None
        s, vals = sensor(e, "p%s_%d" % (tag, i), named, kind)
        o["extraSensors"].append(s)
        info.append((named, vals))
    return o, info


def sensors(e):
    """extra sensors over a sequence of packets: names are remembered per callsign and position, values keep them"""
    e.now(20000, 40000, 0)
    plan = e.params["plan"]
    pkts = [packet_of(e, "p%d" % i, kinds) for i, kinds in enumerate(plan)]
    objs = [p[0] for p in pkts]
    orig = [copy(o) for o in objs]
    d, seen, docs = setup(e, objs)
    cache = {}
    for k, (o, info) in enumerate(pkts):
        out = decode(e, d, seen, frame(e, "f%d" % k))
        required(e, out, orig[k])
        call, custom = orig[k]["payloadCallsign"], []
        for i, (named, vals) in enumerate(info):
            if named: cache[(call, i)] = named
            name = cache.get((call, i), "unknown")
            if not named and name != "unknown": e.cover("remembered")
            for suffix, v in vals:
                key = "%s_%d%s" % (name, i, suffix)
                custom.append(key)
                e.check(key in out, "sensor field %s missing" % key)
                e.check(e.same(out[key], v), "value of sensor field %s" % key)
        listed(e, out, custom, [])
        doc(e, docs, out, orig[k])
    e.cover("done")
