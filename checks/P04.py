from pcommon import *
H = "h_encode.py"
ND = [(n, p) for n in ((0, 1, 4, 45, 65) if TIER == "quick" else (0, 1, 2, 4, 16, 43, 45, 65, 128)) for p in (0, 1, 8)]
jobs = [PJob("%s_%d_%d" % (f, n, p), H, f, {"n": n, "pre": p}, what="expansion of bytes for the modulator", bounds="every %d-byte packet, preamble %d" % (n, p), covers=["done"]) for f in ("symbols", "bits") for n, p in ND]
jobs += [PJob("%s_default" % f, H, f, {"n": 4, "pre": 8, "default": True}, what="the preamble sent when none is asked for", bounds="every 4-byte packet", covers=["done"]) for f in ("symbols", "bits")]
if __name__ == "__main__":
    sys.exit(PCheck("P04", jobs).main())
