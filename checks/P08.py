from pcommon import *
N = (1, 3)
R = (1, 2, 5) if TIER == "quick" else (1, 2, 3, 5, 7)
jobs = [PJob("delivery_%d_of_%d" % (r, n), "h_upload.py", "delivery", {"retries": r, "n": n}, what="requests, retries and reports of upload_telemetry", bounds="every sequence of answers 100..599 / connection faults, at most %d requests, %d packets, 7 forms of a 202 body" % (r, n), covers=["delivered", "lost"] + (["delivered after a retry"] if r > 1 else [])) for r in R for n in N]
jobs += [PJob("position_%d" % r, "h_upload.py", "position", {"retries": r}, what="station_position_upload", bounds="every sequence of answers, at most %d requests" % r, covers=["accepted", "refused"]) for r in R]
jobs += [PJob("worker_%d" % n, "h_upload.py", "worker", {"naps": n}, what="the queue thread loses, repeats and reorders nothing", bounds="every pattern of arrivals over %d sleeps" % n, covers=["several packets"]) for n in ((5, 7) if TIER == "quick" else (5, 7, 9, 11))]
jobs += [PJob("rate_limit", "h_upload.py", "rate_limit", {"rounds": 4 if TIER == "quick" else 6}, what="station information interval", bounds="steps of 1..40000 s", covers=["sent again"]),
         PJob("add", "h_upload.py", "add", what="what is queued", bounds="inhibited or not, for SondeHub or not", covers=["queued", "nothing queued"])]
if __name__ == "__main__":
    sys.exit(PCheck("P08", jobs, assumptions=["requests.put answers with an integer status or raises; json() of a 202 gives one of seven documents, well formed or not"], outside=["real threads: the queue thread is run to completion with arrivals placed at its sleeps"]).main())
