"""parse_ukhas_string: RTTY sentences."""
import binascii


def crc(text): return "%04X" % binascii.crc_hqx(text.encode("ascii"), 0xffff)


def run(e, s):
    d = e.mod("decoder")
    try:
        return d.parse_ukhas_string(s)
    except ValueError:
        return None


def arbitrary(e):
    """no sentence this short can be accepted, and none raises anything but ValueError"""
    s = e.str("s", e.params["n"], 1, e.params.get("hi", 127))
    e.check(run(e, s) is None, "a sentence with fewer than six fields is accepted")
    e.cover("refused")


def digits(e, name, n):
    s = e.str(name, n, 48, 57)
    v = 0
    for k in range(n): v = v * 10 + (ord(s[k]) - 48)
    return s, v


def name(e, key, n):
    s = e.str(key, n, 33, 126)
    for k in range(n):
        for c in "$*,": e.assume(s[k] != c)
    return s


def sentence(e, body, right=True):
    return e.params.get("lead", "$$") + body + "*" + (crc(body) if right else e.str("crc", 4, 33, 126))


def wrong_crc(e):
    call = name(e, "call", e.params["n"])
    body = call + ",1,010203,1.0,2.0,3"
    c = e.str("crc", e.params["m"], 33, 126)
    for k in range(e.params["m"]):
        for x in "$*": e.assume(c[k] != x)
    e.assume(c != crc(body))
    e.check(run(e, "$$" + body + "*" + c) is None, "a sentence with a wrong checksum is accepted")
    e.cover("refused")


def values(e):
    """a sentence with the right checksum: what is accepted and what the fields become"""
    p = e.params
    call = name(e, "call", p["call"])
    seq_t, seq = digits(e, "seq", p["seq"])
    h_t, h = digits(e, "h", 2)
    m_t, m = digits(e, "m", 2)
    s_t, s = digits(e, "s", 2)
    alt_t, alt = digits(e, "alt", p["alt"])
    neg = e.pick("neg", ["", "-"]) if p.get("signs") else ""
    body = call + "," + seq_t + "," + (h_t + ":" + m_t + ":" + s_t if p["colons"] else h_t + m_t + s_t) + ",-34.5,138.25," + neg + alt_t + p.get("more", "")
    text = p.get("lead", "$$") + body + "*" + crc(body)
    whole = text + p.get("trail", "")
    out = run(e, whole.encode("ascii") if p.get("bytes") else whole)
    if neg: alt = 0 - alt
    good = e.both(h < 24, m < 60, s < 62, alt >= 0, alt <= 65535)
    if out is None:
        e.cover("refused")
        e.check(e.either(e.neg(good), s >= 60), "a good sentence is refused")
        return
    e.cover("accepted")
    e.check(good, "an impossible time or altitude is accepted")
    e.check(out["callsign"] == call, "callsign")
    e.check(out["sequence_number"] == seq, "sequence number")
    e.check(out["altitude"] == alt, "altitude")
    e.check(out["latitude"] == -34.5 and out["longitude"] == 138.25, "position")
    if s < 60: e.check(out["time"] == h_t + ":" + m_t + ":" + s_t, "time")
    e.check(out["raw"] == text, "raw")
    e.check(out["modulation"] == "RTTY", "modulation")


def position(e):
    """latitude and longitude are the decimal numbers of the sentence"""
    p = e.params
    a_t, a = digits(e, "a", p["int"])
    f_t, f = digits(e, "f", p["frac"])
    neg = e.pick("neg", ["", "-"])
    t = neg + a_t + "." + f_t
    body = "HORUS,1,01:02:03," + (t + ",2.5" if p["lat"] else "2.5," + t) + ",100"
    out = run(e, "$$" + body + "*" + crc(body))
    e.check(out is not None, "refused")
    v = out["latitude" if p["lat"] else "longitude"]
    w = float(a * 10 ** p["frac"] + f) / float(10 ** p["frac"])
    if neg: w = -w
    e.check(v == w, "the decimal value")
    e.check(out["longitude" if p["lat"] else "latitude"] == 2.5, "the other coordinate")
    e.cover("accepted")


def missing(e):
    """too few fields, or a field that is no number: refused, with the right checksum too"""
    p = e.params
    fields = ["HORUS", "12", "01:02:03", "1.5", "2.5", "100"]
    k = p["field"]
    if p["how"] == "cut": fields = fields[:k]
    else: fields[k] = e.str("x", p["n"], 33, 126)
    if p["how"] != "cut":
        for j in range(p["n"]):
            for c in "$*,": e.assume(fields[k][j] != c)
        for j in range(p["n"]):                 # nothing a number could be written with
            for c in "0123456789aAiInN": e.assume(fields[k][j] != c)
    body = ",".join(fields)
    e.check(run(e, "$$" + body + "*" + crc(body)) is None, "a sentence without its fields is accepted")
    e.cover("refused")
