from common import *
jobs = []
sizes = (128, 96, 64, 48, 32, 22, 16) + ((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 24, 40, 100, 200) if TIER == "thorough" else (1, 2, 3, 7))
for n in sizes:
    jobs.append(Job("wire_%d" % n, "l2.c", L2, defs=["VP_N=%d" % n, "VP_MODE=1"], bounds="every %d-byte payload" % n, what="encoded frame == reference frame, exactly the announced size is written"))
sys.exit(CCheck("C04", jobs, jobs_parallel=6, outside=["payload sizes other than %s" % (sorted(sizes),)]).main())
