from pcommon import *
H = "h_sinks.py"
jobs = [PJob("faults", H, "summary_faults", {"options": False}, what="UDP sending under faults", bounds="every combination of failing socket and send calls and missing fields", covers=["to <broadcast>", "to 127.0.0.1", "failed"]),
        PJob("option_faults", H, "summary_faults", {"options": True}, what="the same with failing socket options", bounds="every combination", covers=["to <broadcast>", "failed"]),
        PJob("summary", H, "summary", what="content of the payload summary", bounds="every position, altitude and presence pattern", covers=["no position", "sent"]),
        PJob("ozimux", H, "ozimux", what="content of the OziMux message", bounds="every position and altitude", covers=["sent"])]
if __name__ == "__main__":
    sys.exit(PCheck("P12", jobs, outside=["the network itself"]).main())
