"""decode_packet on Horus Binary v1/v2 frames: what is accepted, and what each field means.  The expected values are
written from the published packet format, independently of the decoder's tables."""
import binascii, struct, json


class NotV3(Exception):
    pass


def setup(e, ids=None, custom=None):
    d = e.mod("decoder")
    p = e.mod("payloads")
    if ids is not None:
        p.HORUS_PAYLOAD_LIST = ids
    if custom is not None:
        p.HORUS_CUSTOM_FIELDS = custom

    class NoASN:
        @staticmethod
        def decode(*a, **k):
            raise NotV3()
    d.HORUS_ASN = NoASN
    return d


IDS = {0: "4FSKTEST", 1: "HORUSBINARY", 256: "4FSKTEST-V2", 300: "ALPHA", 65535: "OMEGA"}
CUSTOM = {"HORUSTEST": {"struct": "<BbBfH", "fields": [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_float_field", "none"], ["test_int_field", "none"]]},
          "ALPHA": {"struct": "<BbBH4x", "fields": [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_int_field", "none"]]},
          "4FSKTEST-V2": {"struct": "<hhBHxx", "fields": [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"], ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]}}


def u16(b, k): return b[k] + 256 * b[k + 1]
def s8(b): return b - 256 * (b >> 7)
def tail_ok(b): return binascii.crc_hqx(b[:-2], 0xffff) == u16(b, len(b) - 2)
def head_ok(b): return binascii.crc_hqx(b[2:], 0xffff) == u16(b, 0)


def run(e, d, data):
    """('ok', dict) or ('rejected', None); any exception but ValueError escapes and counts as a violation"""
    try:
        return "ok", d.decode_packet(data)
    except ValueError:
        return "rejected", None
    except NotV3:
        return "v3", None


def crc_text(text):
    return "%04X" % binascii.crc_hqx(text.encode("ascii"), 0xffff)


def two(v): return f"{v:02d}"


def acceptance(e):
    """length and checksum decide; a frame is never accepted otherwise"""
    d = setup(e, IDS, CUSTOM)
    n = e.params["n"]
    data = e.bytes("d", n)
    if n in (16, 22, 32):
        e.assume(e.neg(tail_ok(data)))       # frames with the right checksum: jobs v1, v2_16, v2_32
    how, out = run(e, d, data)
    if how == "v3":
        e.cover("v3")
        e.check(head_ok(data), "treated as version 3 without the leading checksum")
        return
    e.check(e.neg(head_ok(data)), "leading checksum right but not treated as version 3")
    e.check(how == "rejected", "frame of an unknown length or with a wrong checksum accepted")
    e.cover("rejected")


def fields(e, d, data, out, exp, text):
    for k in exp:
        e.check(k in out, "field %s present" % k)
        e.check(e.same(out[k], exp[k]), "value of %s" % k)
    e.check(e.same(out["ukhas_str"], "$$" + text + "*" + crc_text(text)), "ukhas_str")
    e.check(e.same(out["callsign"], out["payload_id"]), "callsign is the payload name")
    e.check(out["raw"] == data.hex().upper(), "raw")


def name_of(i):
    return IDS[i] if i in IDS else "UNKNOWN_PAYLOAD_ID"


def hms(e, b, how):
    """None when the three bytes are no time of day (the frame must then have been rejected)"""
    good = e.both(b[0] < 24, b[1] < 60, b[2] < 60)
    if not good:
        e.check(how == "rejected", "impossible time of day accepted")
        return None
    return two(b[0]) + ":" + two(b[1]) + ":" + two(b[2])


def degrees(e, x, how):
    if not e.both(x >= -180.0, x <= 180.0):
        e.check(how == "rejected", "latitude or longitude outside +-180 accepted")
        return False
    return True


def prepare(e, n):
    d = setup(e, IDS, CUSTOM)
    data = e.bytes("d", n - 2)
    c = binascii.crc_hqx(data, 0xffff)
    data = data + bytes([c & 255, c >> 8])
    e.assume(e.neg(head_ok(data)))
    how, out = run(e, d, data)
    e.check(how != "v3", "not version 3")
    return d, data, how, out


def v1(e):
    d, b, how, out = prepare(e, 22)
    t = hms(e, b[3:6], how)
    if t is None: return
    lat, lon = struct.unpack("<ff", b[6:14])
    if not degrees(e, lat, how) or not degrees(e, lon, how): return
    e.check(how == "ok", "a valid version 1 frame is rejected")
    if how != "ok": return
    e.cover("decoded")
    name = name_of(b[0])
    seq, alt, spd, sat, temp = u16(b, 1), u16(b, 14), b[16], b[17], s8(b[18])
    batt = 5.0 * b[19] / 255.0
    text = name + "," + str(seq) + "," + t + "," + f"{lat:.5f}" + "," + f"{lon:.5f}" + "," + str(alt) + "," + str(spd) + "," + str(sat) + "," + str(temp) + "," + f"{batt:.2f}"
    fields(e, d, b, out, dict(payload_id=name, sequence_number=seq, time=t, latitude=lat, longitude=lon, altitude=alt, speed=spd, satellites=sat, temperature=temp, battery_voltage=batt, modulation="Horus Binary v1", crc_ok=True), text)


def v2_16(e):
    d, b, how, out = prepare(e, 16)
    bis = u16(b, 2)
    if bis > 43200:
        e.check(how == "rejected", "time beyond a day accepted")
        return
    i24 = lambda k: (b[k] + 256 * b[k + 1] + 65536 * b[k + 2] - 16777216 * (b[k + 2] >> 7)) * 256
    lat, lon = i24(4) * 1e-7, i24(7) * 1e-7
    if not degrees(e, lat, how) or not degrees(e, lon, how): return
    e.check(how == "ok", "a valid 16 byte frame is rejected")
    if how != "ok": return
    e.cover("decoded")
    s = (bis * 2) % 86400
    t = two(s // 3600) + ":" + two((s // 60) % 60) + ":" + two(s % 60)
    name = name_of(b[0])
    seq, alt, flags = b[1], u16(b, 10), b[13]
    batt = 5.0 * b[12] / 255.0
    text = name + "," + str(seq) + "," + t + "," + f"{lat:.5f}" + "," + f"{lon:.5f}" + "," + str(alt) + "," + f"{batt:.2f}" + "," + str(flags)
    fields(e, d, b, out, dict(payload_id=name, sequence_number=seq, time=t, latitude=lat, longitude=lon, altitude=alt, battery_voltage=batt, flags=flags, modulation="Horus Binary v2", crc_ok=True), text)


def s16(b, k): return u16(b, k) - 65536 * (b[k + 1] >> 7)


def v2_32(e):
    d = setup(e, IDS, CUSTOM)
    pid = e.pick("pid", [256, 300, 65535, 301])
    body = e.bytes("d", 28)
    data = bytes([pid & 255, pid >> 8]) + body
    c = binascii.crc_hqx(data, 0xffff)
    b = data + bytes([c & 255, c >> 8])
    e.assume(e.neg(head_ok(b)))
    how, out = run(e, d, b)
    t = hms(e, b[4:7], how)
    if t is None: return
    lat, lon = struct.unpack("<ff", b[7:15])
    if not degrees(e, lat, how) or not degrees(e, lon, how): return
    e.check(how == "ok", "a valid 32 byte frame is rejected")
    if how != "ok": return
    name = name_of(pid)
    seq, alt, spd, sat, temp = u16(b, 2), u16(b, 15), b[17], b[18], s8(b[19])
    batt = 5.0 * b[20] / 255.0
    text = name + "," + str(seq) + "," + t + "," + f"{lat:.5f}" + "," + f"{lon:.5f}" + "," + str(alt) + "," + str(spd) + "," + str(sat) + "," + str(temp) + "," + f"{batt:.2f}"
    exp = dict(payload_id=name, sequence_number=seq, time=t, latitude=lat, longitude=lon, altitude=alt, speed=spd, satellites=sat, temperature=temp, battery_voltage=batt, modulation="Horus Binary v2", crc_ok=True)
    if pid == 300:
        e.cover("own custom fields")
        cb = 5.0 * b[21] / 255.0
        cust = dict(cutdown_battery_voltage=cb, external_temperature=s8(b[22]), test_counter=b[23], test_int_field=u16(b, 24))
        text += "," + f"{cb:.2f}" + "," + str(s8(b[22])) + "," + str(b[23]) + "," + str(u16(b, 24))
    else:
        e.cover("default custom fields")
        asc, ext, hum, pres = s16(b, 21) / 100.0, s16(b, 23) / 10.0, b[25], u16(b, 26) / 10.0
        cust = dict(ascent_rate=asc, ext_temperature=ext, ext_humidity=hum, ext_pressure=pres)
        text += "," + f"{asc:.2f}" + "," + f"{ext:.1f}" + "," + str(hum) + "," + f"{pres:.1f}"
    e.check(out["custom_field_names"] == list(cust), "names of the custom fields")
    exp.update(cust)
    fields(e, d, b, out, exp, text)


LAYOUTS = [("<fhBH", ["none", "None", None, "divide_by_100"]),
           ("<fHBBb", ["degree_float", "time_biseconds", "payload_id", "battery_5v_byte", "none"]),
           ("<3s3shb", ["time_hms", "degree_fixed3", "divide_by_10", "divide_by_100"]),
           ("<Bif", ["none", "divide_by_10", "none"]),
           ("<BBBBBBBBB", ["none"] * 8 + ["nonsense"]),
           ("<4sBBBH", ["none"] * 5),
           ("<BBBBBBBBB", ["none"] * 8),
           ("<BBBBBBBB", ["none"] * 8)]


def custom(e):
    """a payload's own fields: every field type, over every content of the nine bytes"""
    layout, types = LAYOUTS[e.params["layout"]]
    names = ["f%d" % k for k in range(len(types))]
    d = setup(e, IDS, {"ALPHA": {"struct": layout, "fields": [[n, t] for n, t in zip(names, types)]}})
    nine = e.bytes("c", 9)
    b = bytes([44, 1, 7, 0, 1, 2, 3]) + struct.pack("<ff", -34.5, 138.25) + bytes([232, 3, 10, 5, 20, 200]) + nine
    c = binascii.crc_hqx(b, 0xffff)
    b = b + bytes([c & 255, c >> 8])
    e.assume(e.neg(head_ok(b)))
    how, out = run(e, d, b)
    if e.params["layout"] >= 4:
        e.check(how == "rejected", "fields that do not fit the section are decoded all the same")
        e.cover("decoded")
        return
    values, texts, at = [], [], 0
    for code, t in zip(layout.replace("3s", "3")[1:], types):
        n = {"f": 4, "h": 2, "H": 2, "B": 1, "b": 1, "3": 3, "i": 4}[code]
        raw = nine[at:at + n]; at += n
        x = raw if code == "3" else struct.unpack("<" + code, raw)[0]
        if t == "time_hms":
            x = hms(e, raw, how)
            if x is None: return
            s = x
        elif t == "time_biseconds":
            if x > 43200:
                e.check(how == "rejected", "time beyond a day accepted")
                return
            v = (x * 2) % 86400
            x = two(v // 3600) + ":" + two((v // 60) % 60) + ":" + two(v % 60)
            s = x
        elif t == "degree_float" or t == "degree_fixed3":
            if code == "3": x = (raw[0] + 256 * raw[1] + 65536 * raw[2] - 16777216 * (raw[2] >> 7)) * 256 * 1e-7
            if not degrees(e, x, how): return
            s = f"{x:.5f}"
        elif t == "payload_id":
            x = name_of(x); s = x
        elif t == "battery_5v_byte":
            x = 5.0 * x / 255.0; s = f"{x:.2f}"
        elif t == "divide_by_10":
            x = x / 10.0; s = f"{x:.1f}"
        elif t == "divide_by_100":
            x = x / 100.0; s = f"{x:.2f}"
        else:
            s = f"{x:.6f}" if code == "f" else str(x)
        values.append(x); texts.append(s)
    e.check(how == "ok", "a valid 32 byte frame is rejected")
    if how != "ok": return
    e.check(out["custom_field_names"] == names, "names of the custom fields")
    batt = 5.0 * 200 / 255.0
    text = ",".join(["ALPHA", "7", "01:02:03", f"{-34.5:.5f}", f"{138.25:.5f}", "1000", "10", "5", "20", f"{batt:.2f}"] + texts)
    fields(e, d, b, out, dict(zip(names, values)), text)
    e.cover("decoded")
