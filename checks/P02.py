from pcommon import *
H = "h_v3.py"
Q = TIER == "quick"
jobs = [PJob("group_%s" % g, H, "group", {"group": g}, what="fields of a v3 packet: %s" % g, bounds="every presence pattern, every value within the ASN.1 constraints", covers=["all present"] if g == "base" else ["all present", "some absent"]) for g in ("base", "numbers", "temperatures", "voltages", "counts", "misc")]
PL = [("ints", [["horusInt"]]), ("reals", [["horusReal"]]), ("strings", [["horusStr"]]), ("bools", [["horusBool"]]), ("name_only", [["none"]]), ("four", [["horusInt", "horusStr", "none", "horusReal"]]),
      ("two_packets", [["horusInt", "horusStr"], ["horusStr", "horusInt"]]), ("name_then_values", [["none"], ["horusInt"]])] + [("three_packets", [["horusInt"], ["horusStr"], ["horusBool"]])]
if not Q: PL += [("four_of_each", [["horusBool", "horusReal", "horusInt", "horusStr"], ["horusInt", "none", "horusStr"]])]
jobs += [PJob("sensors_%s" % n, H, "sensors", {"plan": p}, what="extra sensors and their remembered names", bounds="packets with sensors %s, each named or not, two callsigns" % p, covers=["done"] + (["remembered"] if len(p) > 1 else [])) for n, p in PL]
if __name__ == "__main__":
    sys.exit(PCheck("P02", jobs, assumptions=["the ASN.1 decoder delivers values within the constraints of HorusBinaryV3.asn1", "json.dumps is a recording stand-in"], outside=["timeOfDaySeconds -1 and 86400", "a text sensor named count"]).main())
