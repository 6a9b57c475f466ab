from common import *

G = "src/golay23.c"
names = {1: "syndrome is the remainder by the generator polynomial", 2: "linearity of the reference",
         3: "decode removes exactly a weight<=3 error", 4: "encode is systematic Golay", 5: "minimum distance 7",
         6: "count_errors is the Hamming distance", 7: "decoded message is that of the codeword within 3 bits"}
jobs = []
for c in (3, 4, 1, 2, 5, 6):
    jobs.append(Job("runtime_tables_case%d" % c, "golay.c", [G], defs=["VP_CASE=%d" % c], bounds="all 23-bit words, no bound left open", what=names[c]))
for c in (3, 4):
    jobs.append(Job("static_tables_case%d" % c, "golay.c", [G], defs=["VP_CASE=%d" % c], product_defs=False, bounds="all 23-bit words", what=names[c] + " (precomputed tables)"))
jobs.append(Job("no_tables_errors_on_zero_message", "golay.c", [G], defs=["VP_CASE=7", "NO_TABLES", "VP_ZERO_MESSAGE"], product_defs=False, bounds="all error patterns of weight <= 3 on the zero message", what=names[7] + " (table-free variant)"))
for c in (4, 7) if TIER == "thorough" else (4,):
    jobs.append(Job("no_tables_case%d" % c, "golay.c", [G], defs=["VP_CASE=%d" % c, "NO_TABLES"], product_defs=False, bounds="all 23-bit words", what=names[c] + " (table-free variant)"))
sys.exit(CCheck("C01", jobs, assumptions=["golay23_init has been called before encode/decode (documented; asserted by the code)"]).main())
