from pcommon import *
H = "h_horuslib.py"
Q = TIER == "quick"
T = ["0aFf"]
jobs = [PJob("chunks_1_cut", H, "chunks", {"blocks": 2, "total": 21, "cuts": 1}, what="blocks and frames, whatever the chunks", bounds="21 bytes cut anywhere once, block sizes 2..4 samples chosen anew for each block, frames or not", covers=["frames", "several blocks"]),
        PJob("chunks_2_cuts", H, "chunks", {"blocks": 2, "total": 15, "cuts": 2, "nin": (2, 3), "texts": T}, what="blocks and frames, whatever the chunks", bounds="15 bytes cut anywhere twice", covers=["frames", "several blocks"]),
        PJob("chunks_stereo", H, "chunks", {"blocks": 2, "total": 21, "cuts": 1, "nin": (1, 3), "stereo": True, "texts": T}, what="the same for IQ input", bounds="21 bytes cut anywhere once", covers=["frames", "several blocks"]),
        PJob("chunks_rtty", H, "chunks", {"blocks": 2, "total": 15, "cuts": 1, "rtty": True}, what="the same in an RTTY mode", bounds="15 bytes cut anywhere once", covers=["frames", "several blocks"]),
        PJob("resampled", H, "resampled", {"total": 61}, what="other audio rates", bounds="4 rates, 3 block sizes", covers=["done"])]
if not Q: jobs += [PJob("chunks_3_blocks", H, "chunks", {"blocks": 3, "total": 27, "cuts": 2, "nin": (2, 3), "texts": T}, budget=1500, max_paths=60000, what="three blocks", bounds="27 bytes cut anywhere twice", covers=["several blocks"])]
jobs += [PJob("text_%s_%d" % ("rtty" if r else "hex", n), H, "text", {"rtty": r, "n": n}, what="from the modem's text to the frame", bounds="every ASCII text of %d characters" % n, covers=["text"] if r else ["bytes", "not hexadecimal"]) for r, n in ((True, 3), (False, 2), (False, 4))]
jobs += [PJob("text_8bit_%s" % r, H, "text", {"rtty": r, "n": 3, "ascii": False}, what="text that is not ASCII", bounds="every 3 byte string", covers=["not ascii"]) for r in (True, False)]
if __name__ == "__main__":
    sys.exit(PCheck("P11", jobs, assumptions=["the C library, cffi and audioop are recording stand-ins"], outside=["the resampler itself"]).main())
