from common import *
sizes = (128, 96, 64, 48, 32, 22, 16) + (tuple(range(1, 16)) if TIER == "thorough" else (1, 2, 3, 6))
jobs = [Job("arbitrary_rx_%d" % n, "l2.c", L2, defs=["VP_N=%d" % n, "VP_MODE=4"], bounds="every received packet of the size announced for %d payload bytes" % n, what="decode of arbitrary bytes reads and writes only the announced sizes and terminates") for n in sizes]
sys.exit(CCheck("C14", jobs, jobs_parallel=6, outside=["payload sizes other than %s" % (sorted(sizes),)]).main())
