from pcommon import *
H = "h_rtty.py"
Q = TIER == "quick"
jobs = [PJob("any_%d_%d" % (n, hi), H, "arbitrary", {"n": n, "hi": hi}, what="short arbitrary sentences", bounds="every text of %d characters 1..%d" % (n, hi), covers=["refused"]) for n in ((0, 1, 3, 5) if Q else (0, 1, 2, 3, 4, 5, 6, 7)) for hi in (127, 255)]
jobs += [PJob("wrong_crc_%d_%d" % (n, m), H, "wrong_crc", {"n": n, "m": m}, what="wrong checksums", bounds="every callsign of %d and checksum text of %d characters" % (n, m), covers=["refused"]) for n in (1, 6) for m in (0, 3, 4, 5)]
for c in (True, False):
    for s, a, k in ((1, 5, 1), (5, 1, 6), (3, 3, 9)):
        jobs.append(PJob("values_%d_%d_%d_%s" % (s, a, k, "colons" if c else "plain"), H, "values", {"call": k, "seq": s, "alt": a, "colons": c}, what="acceptance and meaning of a sentence", bounds="every callsign of %d characters, %d sequence digits, %d altitude digits, every time" % (k, s, a), covers=["refused", "accepted"]))
jobs += [PJob("values_negative", H, "values", {"call": 3, "seq": 2, "alt": 3, "colons": True, "signs": 1}, what="negative altitudes", bounds="3 digits", covers=["refused", "accepted"]),
         PJob("values_framing", H, "values", {"call": 3, "seq": 2, "alt": 3, "colons": True, "lead": "xx$$$$$$", "trail": " \r\n", "more": ",1,x,-2.5"}, what="leading $, trailing space, further fields", bounds="3 digits", covers=["refused", "accepted"])]
jobs += [PJob("values_bytes", H, "values", {"call": 3, "seq": 2, "alt": 3, "colons": True, "bytes": 1}, what="the sentence as the bytes a modem hands over", bounds="3 digits", covers=["refused", "accepted"])]
jobs += [PJob("position_%d_%d_%d" % (l, i, f), H, "position", {"lat": l, "int": i, "frac": f}, what="decimal degrees", bounds="every number of %d.%d digits" % (i, f), covers=["accepted"]) for l in (True, False) for i, f in ((1, 2), (3, 5), (2, 6))]
jobs += [PJob("cut_%d" % k, H, "missing", {"how": "cut", "field": k}, what="too few fields", bounds="", covers=["refused"]) for k in (1, 2, 3, 4, 5)]
jobs += [PJob("junk_%d_%d" % (k, n), H, "missing", {"how": "junk", "field": k, "n": n}, what="fields that are no number", bounds="every text of %d characters without digits" % n, covers=["refused"]) for k, n in ((1, 1), (1, 3), (2, 1), (2, 4), (3, 1), (3, 2), (4, 2), (5, 1), (5, 3))]
if __name__ == "__main__":
    sys.exit(PCheck("P05", jobs).main())
