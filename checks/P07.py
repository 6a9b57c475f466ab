from pcommon import *
H = "h_sinks.py"
jobs = [PJob("map_%s" % g, H, "mapping", {"group": g}, what="fields passed on to SondeHub: %s" % g, bounds="every presence pattern, every value", covers=["passed on"]) for g in ("numbers", "floats", "rest", "custom")]
jobs += [PJob("map_no_metadata", H, "mapping", {"group": "none", "meta": False}, what="without receiver metadata", bounds="every altitude and sequence number", covers=["passed on"])]
jobs += [PJob("filter_%s" % c, H, "filters", {"check": c}, what="what is not uploaded", bounds="every clock 02:00..21:59, every payload time 01:00..22:59", covers=["dropped", "passed on"]) for c in (True, False)]
if __name__ == "__main__":
    sys.exit(PCheck("P07", jobs, outside=["times around midnight (P06)"]).main())
