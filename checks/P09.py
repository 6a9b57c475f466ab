from pcommon import *
jobs = [PJob("line_%d" % n, "h_loop.py", "any_line", {"n": n}, what="no line ends the loop", bounds="every line of %d characters 1..127" % n, covers=["went on"]) for n in ((0, 1, 2, 3, 4) if TIER == "quick" else (0, 1, 2, 3, 4, 5, 6, 8))]
jobs += [PJob("hex_%d" % n, "h_loop.py", "short_hex", {"n": n}, what="short hexadecimal lines through the real decoder", bounds="every %d-byte line" % n, covers=["went on"]) for n in (1, 2, 3)]
jobs += [PJob("sequence_%d" % n, "h_loop.py", "sequence", {"n": n}, what="each decoded packet is broadcast, queued and logged exactly once, in order, whatever fails", bounds="every sequence of %d lines x decoder outcome x sink fault" % n, covers=["several packets"] if n > 1 else []) for n in ((1, 2) if TIER == "quick" else (1, 2, 3))]
jobs += [PJob("refresh_%d" % n, "h_loop.py", "refresh", {"n": n}, what="list refresh on unknown payload ids", bounds="%d packets 1..4000 s apart" % n, covers=["refreshed"]) for n in ((2, 3) if TIER == "quick" else (2, 3, 4))]
jobs += [PJob("no_download", "h_loop.py", "refresh", {"n": 2, "nodownload": True}, what="--nodownload", bounds="2 packets"),
         PJob("interrupt", "h_loop.py", "interrupt", what="end of the program", bounds="with and without upload", covers=["ended"])]
if __name__ == "__main__":
    sys.exit(PCheck("P09", jobs, assumptions=["decoder outcomes are a packet, ValueError or any other Exception; the sinks are stand-ins recording what they get"], outside=["bytes on standard input that are not text", "files and command line parsing"]).main())
