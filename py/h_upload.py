"""SondeHub uploader and the command line upload loop, under every response, fault and schedule within the bounds."""
import gzip, json, types


class FakeThread:
    made = None

    def __init__(self, *a, **k):
        self.target = k.get("target")

    def start(self): pass
    def join(self, *a): pass
    def is_alive(self): return False


class Response:
    def __init__(self, status, doc):
        self.status_code, self.doc, self.text = status, doc, "text"

    def json(self):
        if self.doc is None: raise ValueError("no JSON in the response")
        return self.doc


DOCS = [{"message": "m", "errors": [{"error_message": "bad", "payload": "{'lat': '%s'}"}], "warnings": [{"warning_message": "50% off"}]},
        {"errors": [], "warnings": []}, {"message": "no lists"}, None, [], {"errors": [{}], "warnings": []}, "text"]


def uploader(e, **kw):
    m = e.mod("sondehubamateur")
    e.patch(m, "Thread", FakeThread)
    u = m.SondehubAmateurUploader(user_callsign="N0CALL", **kw)
    return m, u


class Net:
    """requests.put with arbitrary answers; .log holds (url, args, kwargs, status or None when it raised)"""

    def __init__(self, e, m):
        self.e, self.log = e, []
        e.patch(m.requests, "put", self.put)

    def put(self, url, *a, **k):
        e, n = self.e, len(self.log)
        if e.flag("fails%d" % n):
            self.log.append((url, a, k, None))
            raise OSError("connection refused")
        st = e.int("status%d" % n, 100, 599)
        self.log.append((url, a, k, st))
        return Response(st, e.pick("doc", DOCS) if n == 0 and st == 202 else DOCS[1])


def delivery(e):
    """upload_telemetry: requests made, what they carry, when it retries, what it reports"""
    limit = e.params["retries"]
    m, u = uploader(e, upload_retries=limit)
    net = Net(e, m)
    batch = [{"payload_callsign": "A", "frame": k} for k in range(e.params["n"])]
    u.upload_telemetry(list(batch))
    e.check(1 <= len(net.log) <= limit, "number of requests")
    stop = good = retry = False
    for url, a, k, st in net.log:
        e.check(not stop, "another request after a final answer")
        e.check(url == m.SondehubAmateurUploader.SONDEHUB_AMATEUR_URL, "wrong URL")
        body = a[0] if a else k.get("data")
        e.check(json.loads(gzip.decompress(body).decode("utf-8")) == batch, "the request does not carry exactly the batch")
        e.check(k["headers"]["Content-Encoding"] == "gzip" and k["headers"]["Content-Type"] == "application/json", "headers")
        if st is None: stop = True
        elif e.either(st == 200, st == 202): stop = good = True
        elif e.both(st >= 500, st <= 504): retry = True
        else: stop = True
    e.check(stop or len(net.log) == limit, "gave up although the server only asked to retry")
    if good:
        e.cover("delivered after a retry" if retry else "delivered")
        if not retry and net.log[0][3] == 200: e.check(len(e.log("error")) == 0, "an error is logged for an accepted batch")
    else:
        e.cover("lost")
        e.check(len(e.log("error")) > 0, "a lost batch is not reported")


def position(e):
    """station_position_upload: at most `retries` requests, none after a final answer, carries the station data, never raises"""
    limit = e.params["retries"]
    pos = e.pick("pos", [None, [1.5, -2.5, 3.0]])
    m, u = uploader(e, upload_retries=limit, user_position=pos, user_radio="r", user_antenna="a")
    net = Net(e, m)
    t = e.int("now", 1600000000, 2000000000)
    e.clock(lambda: t)
    u.station_position_upload()
    e.check(1 <= len(net.log) <= limit, "number of requests")
    stop = good = False
    for url, a, k, st in net.log:
        e.check(not stop, "another request after a final answer")
        e.check(url == m.SondehubAmateurUploader.SONDEHUB_AMATEUR_STATION_POSITION_URL, "wrong URL")
        d = k["json"]
        e.check(d["uploader_callsign"] == "N0CALL" and d["uploader_position"] == pos and d["uploader_radio"] == "r" and d["uploader_antenna"] == "a", "station data")
        if st is None: stop = True
        elif e.either(st == 200, st == 404): stop = good = True
        elif st != 500: stop = True
    e.check(stop or len(net.log) == limit, "gave up although the server only asked to retry")
    e.check(u.last_user_position_upload == t, "the attempt is not remembered: the next one would follow at once")
    if good: e.cover("accepted")
    else:
        e.cover("refused")
        e.check(len(e.log("error")) > 0, "a refused station upload is not reported")


def worker(e):
    """the queue thread, driven by an arbitrary schedule of arrivals between its one second sleeps"""
    rate, naps = 2, e.params["naps"]
    m, u = uploader(e, upload_rate=rate)
    added, got, stations = [], [], []
    state = {"naps": 0, "now": e.int("start", 1600000000, 1700000000)}

    def arrive(name, nap):
        if e.flag(name):
            item = {"n": len(added), "nap": nap}
            added.append(item)
            u.input_queue.put(item)

    def nap(s):
        k = state["naps"]
        state["naps"] = k + 1
        if k >= naps:
            e.fail("the thread sleeps on after close()")
        arrive("arrives%d" % k, k)
        if k == naps - 1: u.close()
        state["now"] = state["now"] + 1

    e.sleeper(nap)
    e.clock(lambda: state["now"])

    def upload(items):
        got.append(list(items))
        arrive("arrives_during_upload%d" % len(got), state["naps"])      # the decoder goes on while a request is under way
    e.patch(u, "upload_telemetry", upload)

    def station():
        stations.append(state["now"])
        arrive("arrives_during_station", state["naps"])
        u.last_user_position_upload = state["now"]
    e.patch(u, "station_position_upload", station)
    u.process_queue()
    e.check(state["naps"] == naps, "the thread stopped on its own")
    flat = [x for g in got for x in g]
    rounds = (naps - 1) // rate * rate
    must = [x for x in added if x["nap"] < rounds]
    e.check(flat == added[:len(flat)], "order or duplication of uploaded packets")
    e.check(len(flat) >= len(must), "a queued packet is never uploaded")
    e.check(all(len(g) > 0 for g in got), "an empty batch is uploaded")
    e.check(len(stations) == 1, "station information sent %d times" % len(stations))
    if len(flat) > 2: e.cover("several packets")


def rate_limit(e):
    """station information goes out once the interval has passed, never before"""
    m, u = uploader(e, upload_rate=1, user_position_update_rate=6)
    net = Net(e, m)
    state = {"naps": 0, "now": e.int("start", 1600000000, 1700000000)}
    seen = []

    def nap(s):
        k = state["naps"]
        state["naps"] = k + 1
        seen.append((state["now"], len(net.log)))
        if k == e.params["rounds"] - 1: u.close()
        state["now"] = state["now"] + e.int("step%d" % k, 1, 40000)
    e.sleeper(nap)
    e.clock(lambda: state["now"])
    u.upload_retries = 1
    u.process_queue()
    last, before = 0, 0
    for t, n in seen:
        if n > before:
            e.check(n == before + 1, "two uploads in one round")
            e.check(t - last > 6 * 3600, "station information sent again too early")
            last = t
        else:
            e.check(t - last <= 6 * 3600, "station information overdue")
        before = n
    if before > 1: e.cover("sent again")


def add(e):
    """what add() puts in the queue: the reformatted packet, once; nothing when it is not for SondeHub or uploads are off"""
    off = e.flag("inhibit")
    m, u = uploader(e, inhibit=off)
    given = []
    res = e.pick("result", [None, {"payload_callsign": "X"}])

    def reformat(t, metadata=None, **k):
        given.append((t, metadata))
        return res
    e.patch(m, "telem_to_sondehub", reformat)
    e.now(20000, 43200, 0)
    t = {"callsign": "X", "n": 1}
    u.add(t)
    n = u.input_queue.qsize()
    if off or res is None:
        e.cover("nothing queued")
        e.check(n == 0, "queued although inhibited or not for SondeHub")
    else:
        e.cover("queued")
        e.check(n == 1 and u.input_queue.get_nowait() == res, "the reformatted packet is queued once")
    if not off:
        md = given[0][1]
        e.check(len(given) == 1 and given[0][0] == t, "what is reformatted")
        e.check(md["uploader_callsign"] == "N0CALL" and md["time_received"] == "2024-10-04T12:00:00.000000Z", "receiver metadata")
    e.check(u.running() == (not off), "running() after construction")
    u.close()
    e.check(u.running() == False, "running() after close")
    if not off:
        u.add(t)
        e.check(u.input_queue.qsize() == 0, "queued after close")
