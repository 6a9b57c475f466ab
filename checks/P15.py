from pcommon import *
H = "h_encode.py"
L = (0, 1, 2, 3, 20, 30, 126) if TIER == "quick" else (0, 1, 2, 3, 14, 20, 30, 46, 62, 94, 126)
jobs = [PJob("add_%d_%d" % (n, t), H, "crc_add_check", {"n": n, "tail": t}, what="add then check", bounds="every %d-byte string" % n, covers=["done"]) for n in L for t in (True, False)]
jobs += [PJob("check_%d_%d" % (n, t), H, "crc_check", {"n": n, "tail": t}, what="the verdict is the CRC's", bounds="every %d-byte string" % n, covers=["short"] if n < 3 else ["right", "wrong"]) for n in L for t in (True, False)]
jobs += [PJob("name", H, "crc_other", what="unknown checksum names", bounds="every 5-character name", covers=["refused"])]
jobs += [PJob("text_%d" % n, H, "crc_text", {"n": n}, what="ukhas_crc", bounds="every %d-byte string" % n, covers=["done"]) for n in (0, 1, 7, 60)]
jobs += [PJob("burst_%d_%d" % (a, s), H, "crc_burst", {"n": e_n, "at": a, "shift": s}, what="error bursts up to 16 bits", bounds="every %d-byte packet, every pattern at byte %d" % (e_n, a), covers=["burst"]) for e_n in (8,) for a in (0, 3, 5) for s in (0, 4, 7)]
if __name__ == "__main__":
    sys.exit(PCheck("P15", jobs).main())
