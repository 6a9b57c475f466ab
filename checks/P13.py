from pcommon import *
H = "h_lists.py"
Q = TIER == "quick"
jobs = [PJob("lines_2", H, "payload_lines", {"n": 2}, what="meaning of a list of payload ids", bounds="every sequence of 2 lines of 8 kinds, ids of 3 digits, callsigns of 2 characters", covers=["done", "replaced"]),
        PJob("lines_2_wide", H, "payload_lines", {"n": 2, "digits": 5, "call": 4, "kinds": ["plain", "spaced", "comment"], "end": False}, what="the same, longer ids and callsigns, no final newline", bounds="ids of 5 digits, callsigns of 4 characters", covers=["done", "replaced"]),
        PJob("lines_3", H, "payload_lines", {"n": 3, "kinds": ["plain", "no number", "three fields"] if Q else ["plain", "no number", "three fields", "comment"]}, what="the same, 3 lines", bounds="every sequence of 3 lines of 3 kinds", covers=["done", "replaced"])]
jobs += [PJob("any_%d" % n, H, "payload_any", {"n": n}, what="arbitrary text", bounds="every text of %d characters" % n, covers=["done"]) for n in ((0, 1, 2, 3, 4) if Q else (0, 1, 2, 3, 4, 5))]
jobs += [PJob("refresh", H, "refreshed", {"custom": False}, what="download, save, fall back", bounds="every outcome of the download and of each file access", covers=["downloaded", "local", "built in", "no download"])]
if __name__ == "__main__":
    sys.exit(PCheck("P13", jobs, assumptions=["requests and open are stand-ins that fail at will"], outside=["callsigns with leading or trailing spaces inside commas", "file writes that fail half way"]).main())
