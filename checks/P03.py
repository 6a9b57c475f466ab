from pcommon import *
H = "h_encode.py"
jobs = [PJob("ids", H, "ids", what="payload id and sequence number", bounds="-70000..140000, -200000..200000", covers=["refused", "built"]),
        PJob("hms", H, "hms", what="time of day clipping", bounds="-100..100 each", covers=["built"]),
        PJob("ints", H, "ints", what="altitude, speed, satellites, temperature clipping", bounds="+-10^6 / +-1000", covers=["built"]),
        PJob("battery", H, "battery", what="battery scaling", bounds="every double of size up to 10^6", covers=["built"]),
        PJob("position", H, "position", what="latitude and longitude", bounds="every pair of doubles of size up to 360", covers=["built"]),
        PJob("round_trip", H, "round_trip", what="decode(encode(x)) = x", bounds="all in-range sequence numbers, altitudes, speeds, temperatures, times", covers=["read back"])]
jobs += [PJob("int_" + w, H, "custom_ints", {"which": w}, what="default custom field from integers", bounds="+-1000 / +-10000", covers=["built"]) for w in ("ascent_rate", "ext_temperature", "ext_humidity", "ext_pressure")]
jobs += [PJob("float_" + w, H, "custom_floats", {"which": w}, what="default custom field from floats", bounds="every double of size up to 10^5", covers=["built"]) for w in ("ascent_rate", "ext_temperature", "ext_pressure")]
jobs += [PJob("custom_%d" % n, H, "custom_bytes", {"n": n}, what="custom_data override", bounds="every %d-byte string" % n, covers=["built"]) for n in (0, 8, 9, 10)]
if __name__ == "__main__":
    sys.exit(PCheck("P03", jobs, outside=["NaN and infinite arguments", "the FEC call of horus_l2_encode_packet (C03)"]).main())
