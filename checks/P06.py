from pcommon import *
H = "h_dates.py"
jobs = [PJob("nearest_%s" % b, H, "nearest", {"band": b}, what="full timestamp from a time of day", bounds="every receiver time %s, every payload time" % b, covers=["fixed"]) for b in ("early", "late", "day")]
jobs += [PJob("nearest_%s_any_day" % b, H, "nearest", {"band": b, "days": 1}, what="full timestamp from a time of day", bounds="every day 19000..25000 since 1970, every receiver time %s" % b, covers=["fixed"]) for b in ("early", "late")]
jobs += [PJob("nearest_%s_given" % b, H, "nearest", {"band": b, "given": 1}, what="the same with the receiver's time given as text", bounds="six dates at month ends, every receiver time %s" % b, covers=["fixed"]) for b in ("early", "late")]
if __name__ == "__main__":
    sys.exit(PCheck("P06", jobs).main())
