from common import *
lens = range(0, 256) if TIER == "thorough" else sorted(set(list(range(0, 24)) + [30, 46, 62, 94, 126, 127, 128, 129, 200, 253, 254, 255]))
jobs = [Job("crc_%d" % n, "crc.c", L2, defs=["VP_N=%d" % n], bounds="every %d-byte message" % n, what="CRC-16/CCITT-FALSE, reads only the message") for n in lens]
sys.exit(CCheck("C05", jobs, outside=["message lengths above 255 do not fit the length parameter"] + ([] if TIER == "thorough" else ["lengths not in %s (thorough: all)" % (list(lens),)])).main())
