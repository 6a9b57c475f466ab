#!/usr/bin/env python3
"""Concrete twin of sxrt.E: runs a harness on the real, unmodified modules with the inputs of a counterexample.
usage: replay.py HARNESS.py FUNC CASE.json     exit 0: property held, 1: violated (message on stdout)"""
import sys, os, json, struct, importlib, importlib.util, types, datetime, traceback, time, logging, io
REPO = os.environ.get("VP_REPO", "/repo")
sys.dont_write_bytecode = True


class Violated(Exception):
    pass


class Skip(Exception):
    pass


UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
CLOCK = {"now": None, "t": None}
_real_dt = datetime.datetime


class FakeDatetime(_real_dt):
    @classmethod
    def now(cls, tz=None):
        n = CLOCK["now"]
        if n is None: return _real_dt.now(tz)
        return n if tz is not None else n.replace(tzinfo=None)

    @classmethod
    def utcnow(cls): return cls.now(None)


class Logs(logging.Handler):
    def __init__(self):
        super().__init__(); self.rec = []
    def emit(self, r):
        try: self.rec.append((r.levelname.lower(), r.getMessage()))
        except Exception: self.rec.append((r.levelname.lower(), str(r.msg)))


class E:
    symbolic = False

    def __init__(self, inputs, params):
        self.inputs, self.params = inputs, params
        self.h = Logs()
        logging.getLogger().addHandler(self.h)
        logging.getLogger().setLevel(logging.DEBUG)

    def _v(self, name, default): return self.inputs[name][1] if name in self.inputs else default
    def int(self, name, lo, hi): return self._v(name, lo)
    def byte(self, name): return self.int(name, 0, 255)
    def bytes(self, name, n): return bytes(self._v(name, [0] * n))
    def str(self, name, n, lo=1, hi=127): return "".join(map(chr, self._v(name, [max(lo, 48)] * n)))
    def bool(self, name): return bool(self._v(name, False))
    flag = bool
    def float(self, name): return struct.unpack("<d", struct.pack("<Q", self._v(name, 0)))[0]
    def pick(self, name, options): return options[self.int(name, 0, len(options) - 1)]
    def mod(self, name):
        m = importlib.import_module("horusdemodlib." + name)
        return m
    def assume(self, c):
        if not c: raise Skip()
    def check(self, c, msg):
        if not c: raise Violated(msg)
    def cover(self, label): pass
    def fail(self, msg): raise Violated(msg)
    def same(self, a, b):
        if isinstance(a, float) and isinstance(b, float): return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
        if isinstance(a, (list, tuple)) and type(a) == type(b): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict): return list(a) == list(b) and all(self.same(a[k], b[k]) for k in a)
        return type(a) == type(b) and a == b
    def near(self, a, b, tol): return a == b or abs(a - b) <= tol
    def now(self, day, sec, us=0):
        CLOCK["now"] = EPOCH + datetime.timedelta(days=day, seconds=sec, microseconds=us)
        datetime.datetime = FakeDatetime
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("horusdemodlib") and getattr(m, "datetime", None) is _real_dt: m.datetime = FakeDatetime
    def clock(self, fn): time.time = time.monotonic = fn
    def sleeper(self, fn): time.sleep = fn
    def dt(self, day, sec, us=0): return str(EPOCH + datetime.timedelta(days=day, seconds=sec, microseconds=us))
    def dt_parts(self, d):
        if d.tzinfo is None: d = d.replace(tzinfo=UTC)
        x = d - EPOCH
        return (x.days, x.seconds, x.microseconds)
    def log(self, level): return [m for l, m in self.h.rec if l == level]
    def implies(self, a, b): return (not a) or b
    def neg(self, a): return not a
    def both(self, *xs): return all(xs)
    def either(self, *xs): return any(xs)
    def ite(self, c, a, b): return a if c else b
    def fake(self, name, **kw):
        m = types.ModuleType(name); m.__dict__.update(kw); sys.modules[name] = m
        return m
    def fake_attrs(self, modname, real, **kw):
        m = importlib.import_module(real)
        f = types.ModuleType(modname); f.__dict__.update(vars(m)); f.__dict__.update(kw); sys.modules[modname] = f
        return f
    def patch(self, obj, name, val): setattr(obj, name, val)
    def text_len_unknown(self, s): return False


def main():
    h, func, case = sys.argv[1:4]
    sys.path.insert(0, REPO)
    c = json.load(open(case))
    lib = types.ModuleType("_horus_api_cffi"); lib.lib = types.SimpleNamespace(); lib.ffi = types.SimpleNamespace(); sys.modules["_horus_api_cffi"] = lib
    time.sleep = lambda s: None
    spec = importlib.util.spec_from_file_location("harness", h)
    m = importlib.util.module_from_spec(spec)
    out = sys.stdout
    try:
        spec.loader.exec_module(m)
        getattr(m, func)(E(c["inputs"], c["params"]))
    except Violated as e:
        print("violated:", e, file=out); return 1
    except Skip:
        print("not applicable: the inputs do not meet the harness's assumptions", file=out); return 3
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        print("violated: raised %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno), file=out); return 1
    print("held", file=out); return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
