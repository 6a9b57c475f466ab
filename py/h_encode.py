"""Transmit side in Python: the Horus v2 packet builder, symbol/bit expansion, checksums."""
import binascii, struct


def setup(e):
    e.fake("_horus_api_cffi", lib=Lib, ffi=None)
    return e.mod("encoder")


class Lib:
    @staticmethod
    def horus_l2_init(): pass
    @staticmethod
    def horus_l2_get_num_tx_data_bytes(n): return n


def clip(e, v, lo, hi): return e.ite(v < lo, lo, e.ite(v > hi, hi, v))
def u16(b, k): return b[k] + 256 * b[k + 1]
def s16(b, k): return u16(b, k) - 65536 * (b[k + 1] >> 7)


def packet(e, **kw):
    m = setup(e)
    p = m.Encoder().create_horus_v2_packet(return_uncoded=True, **kw)
    e.check(len(p) == 32, "32 bytes")
    e.check(binascii.crc_hqx(p[:30], 0xffff) == u16(p, 30), "checksum")
    return p


FIXED = dict(payload_id=300, sequence_number=7, hours=1, minutes=2, seconds=3, latitude=-34.5, longitude=138.25, altitude=1000, speed=10, satellites=5, temperature=-3, battery_voltage=1.0)
BASE = struct.pack("<HHBBBffHBBbB", 300, 7, 1, 2, 3, -34.5, 138.25, 1000, 10, 5, -3, 51)


def rest(e, p, lo, hi):
    """bytes outside [lo, hi) of the 21 fixed ones are untouched"""
    e.check(p[:lo] == BASE[:lo] and p[hi:21] == BASE[hi:], "other fields disturbed")


def ids(e):
    a = dict(FIXED)
    a["payload_id"] = pid = e.int("payload_id", -70000, 140000)
    a["sequence_number"] = seq = e.int("seq", -200000, 200000)
    try:
        p = packet(e, **a)
    except ValueError:
        e.cover("refused")
        e.check(e.either(pid < 256, pid > 65535), "a legal payload id is refused")
        return
    e.cover("built")
    e.check(e.both(pid >= 256, pid <= 65535), "an illegal payload id is accepted")
    e.check(u16(p, 0) == pid, "payload id")
    e.check(u16(p, 2) == seq % 65536, "sequence number")
    rest(e, p, 0, 4)


def hms(e):
    a = dict(FIXED)
    h, m, s = e.int("h", -100, 100), e.int("m", -100, 100), e.int("s", -100, 100)
    a.update(hours=h, minutes=m, seconds=s)
    p = packet(e, **a)
    e.check(p[4] == clip(e, h, 0, 23), "hours are clipped to 0..23")
    e.check(p[5] == clip(e, m, 0, 59), "minutes are clipped to 0..59")
    e.check(p[6] == clip(e, s, 0, 59), "seconds are clipped to 0..59")
    rest(e, p, 4, 7)
    e.cover("built")


def ints(e):
    a = dict(FIXED)
    al, sp, sa, te = e.int("alt", -10**6, 10**6), e.int("speed", -1000, 1000), e.int("sats", -1000, 1000), e.int("temp", -1000, 1000)
    a.update(altitude=al, speed=sp, satellites=sa, temperature=te)
    p = packet(e, **a)
    e.check(u16(p, 15) == clip(e, al, 0, 65535), "altitude is clipped to 0..65535")
    e.check(p[17] == clip(e, sp, 0, 255), "speed is clipped to 0..255")
    e.check(p[18] == clip(e, sa, 0, 255), "satellites are clipped to 0..255")
    e.check(p[19] - 256 * (p[19] >> 7) == clip(e, te, -128, 127), "temperature is clipped to -128..127")
    rest(e, p, 15, 20)
    e.cover("built")


def finite(e, name, limit):
    x = e.float(name)
    e.assume(e.both(x >= -limit, x <= limit))
    return x


def battery(e):
    a = dict(FIXED)
    a["battery_voltage"] = v = finite(e, "volts", 1e6)
    p = packet(e, **a)
    b = p[20]
    rest(e, p, 20, 21)
    if v >= 5.0: e.check(b == 255, "above 5 V")
    elif v <= 0.0: e.check(b == 0, "below 0 V")
    else: e.check(b == int(255 * v / 5.0), "battery voltage in 1/51 V")
    e.cover("built")


def position(e):
    a = dict(FIXED)
    lat, lon = finite(e, "lat", 360.0), finite(e, "lon", 360.0)
    a.update(latitude=lat, longitude=lon)
    p = packet(e, **a)
    e.check(p[7:15] == struct.pack("<ff", lat, lon), "latitude and longitude as floats")
    rest(e, p, 7, 15)
    e.cover("built")


def custom_ints(e):
    """the default custom fields, from integer inputs: scaled, clipped, never an error"""
    a = dict(FIXED)
    asc, tmp, hum, pres = e.int("ascent", -1000, 1000), e.int("temp", -10000, 10000), e.int("hum", -1000, 1000), e.int("pres", -10000, 10000)
    which = e.params["which"]
    kw = dict(ascent_rate=asc, ext_temperature=tmp, ext_humidity=hum, ext_pressure=pres)
    a.update({which: kw[which]})
    p = packet(e, **a)
    want = dict(ascent_rate=0, ext_temperature=0, ext_humidity=0, ext_pressure=0)
    want[which] = dict(ascent_rate=clip(e, asc * 100, -32768, 32767), ext_temperature=clip(e, tmp * 10, -32768, 32767), ext_humidity=clip(e, hum, 0, 255), ext_pressure=clip(e, pres * 10, 0, 65535))[which]
    e.check(s16(p, 21) == want["ascent_rate"], "ascent rate x 100, clipped")
    e.check(s16(p, 23) == want["ext_temperature"], "temperature x 10, clipped")
    e.check(p[25] == want["ext_humidity"], "humidity, clipped")
    e.check(u16(p, 26) == want["ext_pressure"], "pressure x 10, clipped")
    e.check(p[28:30] == b"\x00\x00", "padding")
    e.check(p[:21] == BASE, "other fields disturbed")
    e.cover("built")


def custom_floats(e):
    a = dict(FIXED)
    which = e.params["which"]
    x = finite(e, "x", 1e5)
    a[which] = x
    p = packet(e, **a)
    k = {"ascent_rate": 100, "ext_temperature": 10, "ext_pressure": 10}[which]
    lo, hi = (0, 65535) if which == "ext_pressure" else (-32768, 32767)
    got = {"ascent_rate": lambda: s16(p, 21), "ext_temperature": lambda: s16(p, 23), "ext_pressure": lambda: u16(p, 26)}[which]()
    y = x * k
    if y >= hi + 1: e.check(got == hi, "clipped at the top")
    elif y <= lo - 1: e.check(got == lo, "clipped at the bottom")
    else: e.check(got == clip(e, int(y), lo, hi), "scaled value")
    e.cover("built")


def custom_bytes(e):
    a = dict(FIXED)
    n = e.params["n"]
    c = e.bytes("c", n)
    a["custom_data"] = c
    p = packet(e, **a)
    e.check(p[21:30] == (c if n == 9 else bytes(9)), "nine custom bytes are used as they are, anything else is ignored")
    e.check(p[:21] == BASE, "other fields disturbed")
    e.cover("built")


def round_trip(e):
    """what the encoder builds, the decoder reads back"""
    a = dict(FIXED)
    seq, alt, sp, te = e.int("seq", 0, 65535), e.int("alt", 0, 65535), e.int("speed", 0, 255), e.int("temp", -128, 127)
    h, m, s = e.int("h", 0, 23), e.int("m", 0, 59), e.int("s", 0, 59)
    a.update(sequence_number=seq, altitude=alt, speed=sp, temperature=te, hours=h, minutes=m, seconds=s)
    p = packet(e, **a)
    d = e.mod("decoder")
    e.assume(e.neg(binascii.crc_hqx(p[2:], 0xffff) == u16(p, 0)))        # it would be taken for a version 3 packet
    out = d.decode_packet(p)
    e.check(out["sequence_number"] == seq, "sequence number")
    e.check(out["altitude"] == alt, "altitude")
    e.check(out["speed"] == sp, "speed")
    e.check(out["temperature"] == te, "temperature")
    e.check(out["satellites"] == 5 and out["latitude"] == -34.5 and out["longitude"] == 138.25 and out["battery_voltage"] == 1.0, "fixed fields")
    e.check(out["time"] == f"{h:02d}:{m:02d}:{s:02d}", "time")
    e.cover("read back")


def symbols(e):
    m = setup(e).Encoder()
    n, pre = e.params["n"], e.params["pre"]
    data = e.bytes("d", n)
    syms = list(m.bytes_to_4fsk_symbols(data, **({} if e.params.get("default") else {"preamble": pre})))
    e.check(len(syms) == 4 * (n + pre), "four symbols per byte")
    e.check(syms[:4 * pre] == [0, 1, 2, 3] * pre, "preamble")
    for k in range(n):
        for j in range(4):
            e.check(syms[4 * (pre + k) + j] == (data[k] >> (6 - 2 * j)) % 4, "symbols are the bit pairs, first one from the top")
    e.cover("done")


def bits(e):
    m = setup(e).Encoder()
    n, pre = e.params["n"], e.params["pre"]
    data = e.bytes("d", n)
    out = m.bytes_to_onebitperbyte(data, **({} if e.params.get("default") else {"preamble": pre}))
    e.check(len(out) == 8 * (n + pre), "eight bytes per byte")
    e.check(out[:8 * pre] == bytes([0, 0, 0, 1, 1, 0, 1, 1]) * pre, "preamble")
    for k in range(n):
        for j in range(8):
            e.check(out[8 * (pre + k) + j] == (data[k] >> (7 - j)) % 2, "bits, first one from the top")
    e.cover("done")


def yes(r):
    """the verdict as a condition"""
    return r if r is True or r is False or type(r).__name__ == "SBool" else bool(r)


def crc_add_check(e):
    c = e.mod("checksums")
    n, tail = e.params["n"], e.params["tail"]
    name = e.pick("name", ["crc16", "CRC16", "crc16-ccitt", "CRC16-CCITT"])
    d = e.bytes("d", n)
    p = c.add_packet_crc(d, checksum=name, tail=tail)
    e.check(len(p) == n + 2, "two bytes longer")
    e.check((p[:n] if tail else p[2:]) == d, "data kept")
    e.check(u16(p, n if tail else 0) == binascii.crc_hqx(d, 0xffff), "little endian CRC")
    if n: e.check(yes(c.check_packet_crc(p, checksum=name, tail=tail)), "what add_packet_crc makes passes check_packet_crc")
    e.cover("done")


def crc_check(e):
    c = e.mod("checksums")
    n, tail = e.params["n"], e.params["tail"]
    d = e.bytes("d", n)
    try:
        r = c.check_packet_crc(d, tail=tail)
    except ValueError:
        e.check(n < 3, "a long enough packet is refused")
        e.cover("short")
        return
    e.check(n >= 3, "a packet without data passes for checked")
    good = binascii.crc_hqx(d[:-2] if tail else d[2:], 0xffff) == u16(d, n - 2 if tail else 0)
    e.check(good if r else e.neg(good), "check_packet_crc says what the CRC says")
    e.cover("right" if r else "wrong")


def crc_other(e):
    c = e.mod("checksums")
    name = e.str("name", 5, 32, 126)
    e.assume(name != "crc16")
    e.assume(name != "CRC16")
    for f in (c.check_packet_crc, c.add_packet_crc):
        try:
            f(b"abcdef", checksum=name)
            known = True
        except ValueError:
            known = False
            e.cover("refused")
        e.check(not known, "an unknown checksum name is accepted")


def crc_burst(e):
    """a burst of errors not longer than 16 bits is always found"""
    c = e.mod("checksums")
    n, at = e.params["n"], e.params["at"]
    d = e.bytes("d", n)
    x = e.bytes("x", 3)
    sh = e.params["shift"]
    pat = (x[0] + 256 * x[1]) << sh                 # up to 16 bits starting anywhere in a byte
    e.assume(pat != 0)
    p = c.add_packet_crc(d)
    q = [p[k] for k in range(n + 2)]
    for j in range(3):
        if at + j < n: q[at + j] = q[at + j] ^ ((pat >> (16 - 8 * j)) & 255)
        else: e.assume(((pat >> (16 - 8 * j)) & 255) == 0)
    e.check(e.neg(yes(c.check_packet_crc(bytes(q)))), "an error burst goes unnoticed")
    e.cover("burst")


def crc_text(e):
    c = e.mod("checksums")
    d = e.bytes("d", e.params["n"])
    t = c.ukhas_crc(d)
    e.check(len(t) == 4, "four digits")
    v = binascii.crc_hqx(d, 0xffff)
    e.check(t == "%04X" % v, "upper case hexadecimal CRC")
    e.cover("done")
