from pcommon import *
jobs = [PJob("length_%d" % n, "h_binary.py", "acceptance", {"n": n}, what="which frames are accepted", bounds="every %d-byte string" % n, covers=["rejected"]) for n in (3, 15, 16, 17, 21, 22, 23, 31, 32, 33, 64)]
jobs += [PJob("v1", "h_binary.py", "v1", what="meaning of a version 1 frame", bounds="every 22-byte frame with its checksum", covers=["decoded"]),
         PJob("v2_16", "h_binary.py", "v2_16", what="meaning of a 16 byte frame", bounds="every frame", covers=["decoded"]),
         PJob("v2_32", "h_binary.py", "v2_32", what="meaning of a 32 byte frame with default / own / 4-byte-padded custom fields", bounds="every frame of four payload ids", covers=["own custom fields", "default custom fields"])]
jobs += [PJob("custom_%d" % k, "h_binary.py", "custom", {"layout": k}, what="a payload's own custom fields, layout %d: every field type, or fields that do not fit" % k, bounds="every content of the nine bytes", covers=["decoded"]) for k in range(8)]
if __name__ == "__main__":
    sys.exit(PCheck("P01", jobs).main())
