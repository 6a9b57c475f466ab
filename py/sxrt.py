"""Source rewriting, call dispatch, models of library functions, path exploration."""
import ast, builtins, sys, os, time, types, json, importlib, math, copy, traceback
import z3
import sx
from sx import *
from sx import _struct, _re, _round_fn, _fmt_items

REPO = os.environ.get("VP_REPO", "/repo")
PKG = os.path.join(REPO, "horusdemodlib")


# --------------------------------------------------------------------------- rewriting
class Rewrite(ast.NodeTransformer):
    SKIP = {"super", "locals", "globals", "vars", "dir", "__import__", "_sxr_merge"}

    def __init__(self, mod):
        self.mod, self.stack = mod, []

    def rt(self, name, *args):
        return ast.Call(ast.Name("_sxr_" + name, ast.Load()), list(args), [])

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        ent = ast.Expr(self.rt("enter", ast.Constant(self.mod + "." + ".".join(self.stack))))
        k = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) else 0
        n.body.insert(k, ent)
        self.stack.pop()
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is None: return n
        n.value = self.visit(n.value)
        return ast.Assign([n.target], n.value)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in self.SKIP:
            return n
        self.generic_visit(n)
        return ast.Call(ast.Name("_sxr_call", ast.Load()), [n.func] + n.args, n.keywords)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return self.rt("fstr", *parts)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.rt("in", n.left, n.comparators[0])
            return ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod): return self.rt("mod", n.left, n.right)
        return n

    def block(self, body):
        """[x = K0; if c: x = K1]  is  [if c: x = K1 else: x = K0], when c does not mention x"""
        out = []
        for s in body:
            p = out[-1] if out else None
            if (isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and self.const_assign(s.body[0]) and self.const_assign(p)
                    and s.body[0].targets[0].id == p.targets[0].id
                    and not any(isinstance(x, (ast.Name, ast.Call, ast.NamedExpr)) and (not isinstance(x, ast.Name) or x.id == p.targets[0].id) for x in ast.walk(s.test))):
                s.orelse = [out.pop()]
            out.append(s)
        return out

    @staticmethod
    def const_assign(b):
        return isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.Constant)

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            if isinstance(getattr(n, f, None), list): setattr(n, f, self.block(getattr(n, f)))
        return super().generic_visit(n)

    @staticmethod
    def differ(x, y):
        """the one constant in which two otherwise identical trees differ: (node of x, value of y)"""
        if type(x) is not type(y): return None
        if isinstance(x, ast.Constant): return (x, y.value) if ast.dump(x) != ast.dump(y) and mergeable(x.value, y.value) else None
        kids = {ast.Assign: ("value",), ast.AugAssign: ("value",), ast.Expr: ("value",), ast.BinOp: ("left", "right"), ast.Call: ("args",)}.get(type(x))
        if kids is None or isinstance(x, ast.Call) and not (isinstance(x.func, ast.Attribute) and x.func.attr == "append" and len(x.args) == len(y.args) == 1): return None
        found = []
        same = lambda u, v: (ast.dump(u) if isinstance(u, ast.AST) else u) == (ast.dump(v) if isinstance(v, ast.AST) else v)
        for f in x._fields:
            u, v = getattr(x, f), getattr(y, f)
            if isinstance(u, list):
                if len(u) != len(v): return None
            else: u, v = [u], [v]
            for p, q in zip(u, v):
                if same(p, q): continue
                if f not in kids: return None
                found.append(Rewrite.differ(p, q))
        return found[0] if len(found) == 1 else None

    def visit_If(self, n):
        """if c: S(K1) else: S(K2), one statement S with different constants: no fork, the value is merged"""
        d = None
        if len(n.body) == len(n.orelse) == 1 and isinstance(n.body[0], (ast.Assign, ast.AugAssign, ast.Expr)):
            d = self.differ(n.body[0], n.orelse[0])
        if d is None and len(n.body) == 1 and not n.orelse and isinstance(n.body[0], ast.AugAssign) and isinstance(n.body[0].op, (ast.BitOr, ast.BitXor)) \
                and isinstance(n.body[0].target, ast.Name) and all(isinstance(x, (ast.BinOp, ast.Name, ast.Constant, ast.operator, ast.expr_context)) for x in ast.walk(n.body[0].value)):
            s = n.body[0]
            self.generic_visit(n)
            s.value = self.rt("merge", n.test, s.value, ast.Constant(0))
            return s
        if d is None: return self.generic_visit(n)
        k, other = d
        s = n.body[0]
        m = self.rt("merge", ast.Name("_sxr_c", ast.Load()), ast.Constant(k.value), ast.Constant(other))

        class Put(ast.NodeTransformer):
            def visit_Constant(self, c): return m if c is k else c
        s = Put().visit(s)
        test = self.visit(n.test)
        s = self.visit(s)
        return [ast.Assign([ast.Name("_sxr_c", ast.Store())], test)] + (s if isinstance(s, list) else [s])

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if isinstance(n.body, ast.Constant) and isinstance(n.orelse, ast.Constant) and mergeable(n.body.value, n.orelse.value):
            return self.rt("merge", n.test, n.body, n.orelse)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys): return n
        pairs = [ast.Tuple([ast.Constant(k is None), ast.Constant(None) if k is None else k, v], ast.Load()) for k, v in zip(n.keys, n.values)]
        return self.rt("dict", ast.List(pairs, ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self.rt("dict", ast.ListComp(ast.Tuple([ast.Constant(False), n.key, n.value], ast.Load()), n.generators))

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], self.rt("mod", ast.Name(n.target.id, ast.Load()), n.value))
        return n

    def key(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: x if x is not None else ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [f(s.lower), f(s.upper), f(s.step)], [])
        return s

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return self.rt("get", n.value, self.key(n.slice))
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(self.rt("set", t.value, self.key(t.slice), n.value))
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == "BaseException"):
            n.body.insert(0, ast.Expr(self.rt("guard")))
        return n


_code = {}


def compile_mod(path, name):
    st = os.stat(path)
    if path not in _code:
        tree = ast.parse(open(path, encoding="utf-8").read(), path)
        tree = ast.fix_missing_locations(Rewrite(name).visit(tree))
        _code[path] = compile(tree, path, "exec")
    return _code[path]


# --------------------------------------------------------------------------- fake logging / time / datetime
class FakeLogging:
    DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50
    def __init__(self): self.calls = []
    def _log(self, level, a): ENG.logs.append((level, a[0] if a else None))
    def debug(self, *a, **k): self._log("debug", a)
    def info(self, *a, **k): self._log("info", a)
    def warning(self, *a, **k): self._log("warning", a)
    def error(self, *a, **k): self._log("error", a)
    def critical(self, *a, **k): self._log("critical", a)
    def exception(self, *a, **k): self._log("error", a)
    def log(self, l, *a, **k): self._log(l, a)
    def basicConfig(self, *a, **k): pass
    def getLogger(self, *a): return self
    def setLevel(self, *a): pass
    warn = warning


class FakeModule(types.ModuleType):
    def __init__(self, name, real=None, **kw):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(kw)

    def __getattr__(self, n):
        r = self.__dict__.get("_real")
        if r is None or (n.startswith("__") and n != "__version__"): raise AttributeError(n)
        return getattr(r, n)


import datetime as _dt, time as _time
UTC = _dt.timezone.utc


def two(v):
    if isinstance(v, int): return [ord(c) for c in "%02d" % v]
    return [(v // 10) + 48, (v % 10) + 48]


class FTD:
    """timedelta in whole microseconds (int or SInt)"""
    _sx_type = _dt.timedelta

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0, _us=None):
        if _us is not None: self.us = _us; return
        t = 0
        for v, m in ((days, 86400 * 10**6), (seconds, 10**6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10**6), (hours, 3600 * 10**6), (weeks, 7 * 86400 * 10**6)):
            if isinstance(v, float):
                t = t + int(_dt.timedelta(microseconds=v * m) / _dt.timedelta(microseconds=1))
            elif isinstance(v, SFloat): raise Unsupported("timedelta of a symbolic float")
            elif not isinstance(v, (int, SInt)): raise TypeError("unsupported type for timedelta: %s" % pytype(v).__name__)
            else: t = t + v * m
        self.us = t

    def total_seconds(self):
        if isinstance(self.us, int): return self.us / 10**6
        s = getattr(self, "whole", None)
        if s is not None: return to_float(s)
        q, r = divmod(self.us, 10**6)
        if isinstance(r, int) and r == 0: return to_float(q)
        return to_float(self.us) / 1e6

    @property
    def days(self): return self.us // (86400 * 10**6)
    @property
    def seconds(self): return (self.us % (86400 * 10**6)) // 10**6
    def __abs__(self):
        r = FTD(_us=abs(self.us))
        if getattr(self, "whole", None) is not None: r.whole = abs(self.whole)
        return r
    def __neg__(self): return FTD(_us=-self.us)
    def __add__(self, o):
        if isinstance(o, FTD): return FTD(_us=self.us + o.us)
        if isinstance(o, FDT): return o + self
        return NotImplemented
    def __sub__(self, o): return FTD(_us=self.us - o.us) if isinstance(o, FTD) else NotImplemented
    def __mul__(self, n): return FTD(_us=self.us * n)
    def __truediv__(self, o):
        if not isinstance(o, FTD): return FTD(_us=self.us // o) if isinstance(o, int) and isinstance(self.us, int) and self.us % o == 0 else NotImplemented
        if isinstance(o.us, int) and o.us == 10**6: return self.total_seconds()
        s = getattr(self, "whole", None)
        if s is not None and isinstance(o.us, int) and o.us % 10**6 == 0: return to_float(s) / to_float(o.us // 10**6)
        return to_float(self.us) / to_float(o.us)
    def __floordiv__(self, o): return self.us // o.us if isinstance(o, FTD) else FTD(_us=self.us // o)
    def __mod__(self, o): return FTD(_us=self.us % o.us)
    def __divmod__(self, o): return self // o, self % o
    def __bool__(self): return bool(self.us != 0)
    __rmul__ = __mul__
    def __lt__(self, o): return self.us < o.us
    def __le__(self, o): return self.us <= o.us
    def __gt__(self, o): return self.us > o.us
    def __ge__(self, o): return self.us >= o.us
    def __eq__(self, o): return isinstance(o, FTD) and self.us == o.us
    def __ne__(self, o): return snot(self == o)
    __hash__ = None
    def __deepcopy__(self, m): return self


class FDT:
    """datetime as day number (from 1970-01-01), second of day, microsecond; each an int or SInt"""
    _sx_type = _dt.datetime

    def __init__(self, day, sec, us=0, tz=UTC):
        self.dn, self.sec, self.us, self.tz = day, sec, us, tz          # dn: day number

    tzinfo = property(lambda s: s.tz)
    hour = property(lambda s: s.sec // 3600)
    minute = property(lambda s: (s.sec // 60) % 60)
    second = property(lambda s: s.sec % 60)
    microsecond = property(lambda s: s.us)

    def _date(self):
        return _dt.date(1970, 1, 1) + _dt.timedelta(days=concrete_int(self.dn))
    def civil(self):
        if isinstance(self.dn, int):
            x = self._date()
            return x.year, x.month, x.day
        return civil(self.dn)
    year = property(lambda s: s.civil()[0])
    month = property(lambda s: s.civil()[1])
    day = property(lambda s: s.civil()[2])
    def weekday(self): return (self.dn + 3) % 7
    def date(self): return FDate(self.dn)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=False):
        d = self.dn
        if not (year is None and month is None and day is None):
            was = self.civil()
            y, mo, x = [b if a is None else a for a, b in zip((year, month, day), was)]
            if not (y >= 1) or not (y <= 9999): raise ValueError("year is out of range")
            if not (mo >= 1) or not (mo <= 12): raise ValueError("month must be in 1..12")
            if not (x >= 1) or not (x <= 28 or x <= month_length(y, mo)): raise ValueError("day is out of range for month")
            if day is not None and year is None and month is None: d = d + (x - was[2])
            else: d = day_number(y, mo, x)
        h = self.hour if hour is None else hour
        m = self.minute if minute is None else minute
        s = self.second if second is None else second
        for v, lim, n in ((h, 24, "hour must be in 0..23"), (m, 60, "minute must be in 0..59"), (s, 60, "second must be in 0..59")):
            if not (v >= 0) or not (v < lim): raise ValueError(n)
        if hour is None and minute is None and second is None: sec = self.sec
        else: sec = h * 3600 + m * 60 + s
        if isinstance(sec, SInt): sec = narrow(sec, 0, 86399)
        return FDT(d, sec, self.us if microsecond is None else microsecond, self.tz if tzinfo is False else tzinfo)

    def __add__(self, o):
        if not isinstance(o, FTD): return NotImplemented
        if isinstance(o.us, int) and o.us % (86400 * 10**6) == 0:
            return FDT(self.dn + o.us // (86400 * 10**6), self.sec, self.us, self.tz)
        if isinstance(o.us, int) and o.us % 10**6 == 0 or divisible(o.us):
            t = self.sec + secs_of(o.us)
            return FDT(self.dn + t // 86400, t % 86400, self.us, self.tz)
        t = self.sec * 10**6 + self.us + o.us
        s = t // 10**6
        return FDT(self.dn + s // 86400, s % 86400, t % 10**6, self.tz)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, FTD): return self + FTD(_us=-o.us)
        if isinstance(o, FDT):
            if (self.tz is None) != (o.tz is None): raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            s = (self.dn - o.dn) * 86400 + (self.sec - o.sec)
            u = self.us - o.us
            r = FTD(_us=s * 10**6 + u)
            if isinstance(u, int) and u == 0: r.whole = s
            return r
        return NotImplemented

    def key(self): return (self.dn * 86400 + self.sec) * 10**6 + self.us
    def __lt__(self, o): return self.key() < o.key()
    def __le__(self, o): return self.key() <= o.key()
    def __gt__(self, o): return self.key() > o.key()
    def __ge__(self, o): return self.key() >= o.key()
    def __eq__(self, o): return isinstance(o, FDT) and sand(self.dn == o.dn, self.sec == o.sec, self.us == o.us)
    def __ne__(self, o): return snot(self == o)
    __hash__ = None
    def __deepcopy__(self, m): return self
    def timestamp(self): return to_float(self.dn * 86400 + self.sec) if isinstance(self.us, int) and self.us == 0 else to_float(self.key()) / 1e6

    def _sx_format(self, spec): return self.strftime(spec) if spec else to_str(self)

    def strftime(self, f):
        out, k = [], 0
        while k < len(f):
            c = f[k]
            if c != "%": out.append(ord(c)); k += 1; continue
            d = f[k + 1]; k += 2
            if d == "H": out += two(self.hour)
            elif d == "M": out += two(self.minute)
            elif d == "S": out += two(self.second)
            elif d == "T": out += two(self.hour) + [58] + two(self.minute) + [58] + two(self.second)
            elif d == "f":
                out += [ord(x) for x in "%06d" % self.us] if isinstance(self.us, int) else dec_digits(self.us, 6)
            elif d in "YmdjFy":
                if isinstance(self.dn, int): out += [ord(x) for x in self._date().strftime("%" + d)]
                else: out.append(Tok("date%" + d, (self.dn,), "0123456789-"))     # kept opaque: equal for equal days
            else: raise Unsupported("strftime %" + d)
        return SStr(out).fold()

    def isoformat(self, sep="T", timespec="auto"):
        s = self.strftime("%Y-%m-%d" + sep + "%H:%M:%S")
        if not (isinstance(self.us, int) and self.us == 0) or timespec == "microseconds":
            s = s + "." + self.strftime("%f")
        return s + ("+00:00" if self.tz is not None else "")

    def _sx_str(self): return self.isoformat(" ")
    def _sx_format(self, spec): return self.strftime(spec) if spec else self._sx_str()
    def __repr__(self): return "<datetime>"
    def astimezone(self, tz=None): return self
    def utcoffset(self): return FTD(0) if self.tz is not None else None


def civil(n):
    """year, month, day of a day number from 1970-01-01 on"""
    z = n + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    late = mp // 10
    return yoe + era * 400 + late, narrow_int(mp + 3 - 12 * late, 1, 12), narrow_int(doy - (153 * mp + 2) // 5 + 1, 1, 31)


def narrow_int(x, lo, hi): return narrow(x, lo, hi) if isinstance(x, SInt) else x


def day_number(y, m, d):
    a = (14 - m) // 12
    y = y - a
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + 12 * a - 3) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def month_length(y, m):
    if m == 2: return 29 if y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) else 28
    return 30 + (m + m // 8) % 2


def divisible(us):
    return isinstance(us, SInt) and isinstance(us % 10**6, int) or (isinstance(us, SInt) and z3.is_app(us.e) and us.e.decl().kind() == z3.Z3_OP_BMUL)


def secs_of(us):
    if isinstance(us, int): return us // 10**6
    e = us.e
    # microseconds made as seconds * 10**6
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_signed_long() == 10**6:
        return SInt(e.arg(1), us.lo // 10**6, us.hi // 10**6)
    return us // 10**6


class FDate:
    def __init__(self, dn): self.dn = dn
    def __eq__(self, o): return isinstance(o, FDate) and self.dn == o.dn
    def __ne__(self, o): return snot(self == o)
    __hash__ = None


class Clock:
    """what now() returns: set by the harness"""
    now = None
    t = None
    sleep = None


class FDTClass:
    """stands for the class datetime.datetime"""
    min, max = _dt.datetime.min, _dt.datetime.max

    def __call__(self, *a, **k):
        d = _dt.datetime(*[concrete_int(x) if isinstance(x, SInt) else x for x in a], **k)
        return from_real(d)

    def now(self, tz=None):
        if Clock.now is None: return from_real(_dt.datetime(2026, 1, 1, 12, 0, 0, tzinfo=tz))
        n = Clock.now() if callable(Clock.now) else Clock.now
        return FDT(n.dn, n.sec, n.us, tz)

    def utcnow(self): return self.now(None)

    def strptime(self, s, f): return strptime(s, f)

    def fromisoformat(self, s):
        if isinstance(s, SStr): raise Unsupported("fromisoformat")
        return from_real(_dt.datetime.fromisoformat(s))

    def combine(self, d, t, tzinfo=None): raise Unsupported("combine")

    def fromtimestamp(self, t, tz=None):
        if isinstance(t, SInt): return FDT(t // 86400, t % 86400, 0, tz)
        return from_real(_dt.datetime.fromtimestamp(t, tz))
    utcfromtimestamp = fromtimestamp


def from_real(d):
    e = _dt.datetime(1970, 1, 1, tzinfo=d.tzinfo)
    x = d - e
    return FDT(x.days, x.seconds, x.microseconds, d.tzinfo)


def strptime(s, f):
    """matches like the regular expressions of _strptime for %H %M %S, by backtracking over the digits"""
    if not isinstance(s, SStr):
        return from_real(_dt.datetime.strptime(s, f))
    items = s.items
    if s.has_tok(): raise Unsupported("strptime of opaque text")
    dig = lambda x, lo, hi: bool(sand(x >= 48 + lo, x <= 48 + hi))
    one = {"H": [[(2, 2), (0, 3)], [(0, 1), (0, 9)], [(0, 9)]], "M": [[(0, 5), (0, 9)], [(0, 9)]], "S": [[(6, 6), (0, 1)], [(0, 5), (0, 9)], [(0, 9)]]}
    toks = _re.findall(r"%(\w)|(.)", f)
    if any(t[0] and t[0] not in one for t in toks):
        raise Unsupported("strptime " + f)

    def go(k, i, got):
        if k == len(toks): return got if i == len(items) else "rest"
        d, lit = toks[k]
        if lit:
            if i < len(items) and bool(items[i] == ord(lit)): return go(k + 1, i + 1, got)
            return None
        for alt in one[d]:
            if i + len(alt) <= len(items) and all(dig(items[i + j], *r) for j, r in enumerate(alt)):
                v = 0
                for j in range(len(alt)): v = v * 10 + (items[i + j] - 48)
                r = go(k + 1, i + len(alt), dict(got, **{d: v}))
                if r is not None: return r       # a regular expression match need not reach the end of the text
        return None
    g = go(0, 0, {})
    if g is None: raise ValueError("time data does not match format %r" % f)
    if g == "rest": raise ValueError("unconverted data remains")
    sec = g.get("S", 0)
    if bool(sec >= 60) : raise ValueError("second must be in 0..59")
    t = g.get("H", 0) * 3600 + g.get("M", 0) * 60 + sec
    if isinstance(t, SInt): t = narrow(t, 0, 86399)
    return FDT(-25567, t, 0, None)


def dateutil_parse(s, default=None, **k):
    """dateutil.parser.parse for the shapes HH:MM:SS and what the harness supplies (FDT passes through)"""
    if isinstance(s, FDT): return s
    if isinstance(s, SStr) and s.is_concrete(): s = s.fold()
    if isinstance(s, str):
        from dateutil.parser import parse
        ref = _dt.datetime(2001, 1, 1, 1, 1, 1, 1)
        ref2 = _dt.datetime(2002, 2, 2, 2, 2, 2, 2)
        a, b = parse(s, default=ref), parse(s, default=ref2)
        if a.year == b.year and a.month == b.month: return from_real(parse(s, default=_dt.datetime(2001, 1, 1)))
        if a.day != b.day:
            return default.replace(hour=a.hour if a.hour == b.hour else None, minute=a.minute if a.minute == b.minute else None, second=a.second if a.second == b.second else None)
        raise Unsupported("dateutil.parse " + s)
    if isinstance(s, SStr) and len(s.items) == 8 and not s.has_tok():
        it = s.items
        if bool(it[2] == 58) and bool(it[5] == 58) and bool(sand(*[sand(it[j] >= 48, it[j] <= 57) for j in (0, 1, 3, 4, 6, 7)])):
            h, m, x = [(it[j] - 48) * 10 + (it[j + 1] - 48) for j in (0, 3, 6)]
            return default.replace(hour=h, minute=m, second=x)
    if isinstance(s, SStr) and len(s.items) == 20 and not s.has_tok():
        it = s.items                                                     # YYYY-MM-DDTHH:MM:SSZ
        if all(bool(it[j] == ord(c)) for j, c in ((4, "-"), (7, "-"), (10, "T"), (13, ":"), (16, ":"), (19, "Z"))) and bool(sand(*[sand(it[j] >= 48, it[j] <= 57) for j in range(20) if j not in (4, 7, 10, 13, 16, 19)])):
            v = [sum((it[j] - 48) * 10 ** (b - 1 - j) for j in range(a, b)) for a, b in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19))]
            return FDT(0, 0, 0, UTC).replace(*v)
    raise Unsupported("dateutil.parse of symbolic text")


def t_time():
    return Clock.t() if callable(Clock.t) else (1750000000.0 if Clock.t is None else Clock.t)


def t_gmtime(t=None):
    if t is None: t = Clock.t() if callable(Clock.t) else (Clock.t or 0)
    if isinstance(t, SFloat): t = t.to_int()
    if isinstance(t, SInt): return FDT(t // 86400, t % 86400, 0, UTC)
    return _time.gmtime(t)


def t_strftime(f, t=None):
    if isinstance(t, FDT): return t.strftime(f)
    return _time.strftime(f, t) if t is not None else _time.strftime(f)


# --------------------------------------------------------------------------- models
def m_int(x=0, base=None):
    if isinstance(x, SInt): return x
    if isinstance(x, SBool): return x.int()
    if isinstance(x, SFloat): return x.to_int()
    if isinstance(x, SBytes): x = x.decode("latin-1"); x = lift(x, SStr)
    if isinstance(x, SStr): return parse_int(x, base or 10)
    return int(x) if base is None else int(x, base)


def m_float(x=0.0):
    if isinstance(x, SStr): return parse_float(x)
    if isinstance(x, Sym):
        r = to_float(x)
        if r is None: raise TypeError("float() argument must be a string or a real number, not '%s'" % pytype(x).__name__)
        return r
    return float(x)


def m_bool(x=False):
    return x if isinstance(x, SBool) else bool(x)


def m_len(x): return len(x)


def m_ord(x):
    if isinstance(x, (SStr, SBytes)):
        if len(x) != 1: raise TypeError("ord() expected a character")
        return x.items[0]
    return ord(x)


def m_chr(x):
    if isinstance(x, SInt):
        if not (x >= 0) or not (x <= 0x10ffff): raise ValueError("chr() arg not in range(0x110000)")
        return SStr([x])
    return chr(x)


def m_bytes(x=b"", *a):
    if a: return lift(x, SStr).encode(*a) if isinstance(x, SStr) else bytes(x, *a)
    if isinstance(x, SBytes): return x
    if isinstance(x, SByteArray): return x.bytes()
    if isinstance(x, SInt): return bytes(x.__index__())
    if isinstance(x, SStr): raise TypeError("string argument without an encoding")
    if isinstance(x, (int, bytes, bytearray, str)): return bytes(x)
    x = list(x)
    if symbolic(x):
        for v in x:
            if not isinstance(v, (int, SInt)): raise TypeError("'%s' object cannot be interpreted as an integer" % pytype(v).__name__)
            if not (v >= 0) or not (v <= 255): raise ValueError("bytes must be in range(0, 256)")
        return SBytes([narrow(v, 0, 255) if isinstance(v, SInt) else v for v in x]).fold()
    return bytes(x)


def m_bytearray(x=b"", *a):
    if a: return SByteArray(list(lift(x, SStr).encode(*a).items)) if isinstance(x, SStr) else SByteArray(list(bytearray(x, *a)))
    if isinstance(x, (SBytes, SByteArray)): return SByteArray(x.items)
    if isinstance(x, SInt): x = x.__index__()
    if isinstance(x, int): return SByteArray([0] * x)
    r = m_bytes(x)
    return SByteArray(lift(r, SBytes).items)


def m_str(x="", *a):
    if a: return m_decode(x, *a)
    if isinstance(x, BaseException) or not (symbolic(x) or hasattr(type(x), "_sx_str")): return str(x)
    return to_str(x)


def m_decode(x, *a):
    return x.decode(*a)


def m_round(x, n=None):
    if isinstance(x, (SInt, SFloat)): return x.__round__(n)
    return round(x) if n is None else round(x, n)


def m_min(*a, **k): return extremum(a, k, lambda x, y: x < y, builtins.min)
def m_max(*a, **k): return extremum(a, k, lambda x, y: x > y, builtins.max)


def extremum(a, k, better, native):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not symbolic(xs) or k: return native(*a, **k) if not (len(a) == 1) else native(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        c = better(x, r)
        if isinstance(c, SBool) and isinstance(x, (int, SInt)) and isinstance(r, (int, SInt)):
            nx, nr = norm(x), norm(r)
            r = mkint(z3.If(c.e, nx[0], nr[0]), min(nx[1], nr[1]), max(nx[2], nr[2]))
        elif bool(c): r = x
    return r


def m_sum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r


def m_sorted(xs, key=None, reverse=False):
    xs = list(xs)
    ks = [key(x) if key else x for x in xs]
    if not symbolic(ks): return sorted(xs, key=key, reverse=reverse)
    out = []
    for x, k in zip(xs, ks):
        i = len(out)
        while i > 0 and bool((k < out[i - 1][1]) if not reverse else (k > out[i - 1][1])): i -= 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


def m_any(xs):
    for x in xs:
        if bool(x): return True
    return False


def m_all(xs):
    for x in xs:
        if not bool(x): return False
    return True


def m_type(*a):
    if len(a) == 3: return type(*a)
    return pytype(a[0])


def m_isinstance(x, t):
    if isinstance(t, tuple): return any(m_isinstance(x, u) for u in t)
    if t is DTC: t = _dt.datetime
    if t is FTD: t = _dt.timedelta
    if isinstance(x, Sym) or hasattr(type(x), "_sx_type"): return issubclass(pytype(x), t)
    return isinstance(x, t)


def m_hex(x):
    if isinstance(x, SInt):
        if not (x >= 0): return SStr([45, 48, 120, Tok("hexmin", (-x,), "0123456789abcdef")])
        return SStr([48, 120, Tok("hexmin", (x,), "0123456789abcdef")])
    return hex(x)


def m_bin(x):
    if isinstance(x, SInt):
        if not (x >= 0): raise Unsupported("bin of a negative value")
        n = 1
        while not bool(x < 1 << n): n += 1
        return sstr_cat(["0b", SStr([((x >> (n - 1 - k)) & 1) + 48 for k in range(n)])])
    return bin(x)


def m_format(x, spec=""): return fmt(x, spec) if symbolic(x) or hasattr(type(x), "_sx_format") else format(x, spec)
def m_abs(x): return abs(x)
def m_divmod(a, b): return idiv(a, b) if isinstance(a, SInt) or isinstance(b, SInt) else divmod(a, b)


def m_pow(a, b, m=None):
    if symbolic((a, b)): return (a ** b) if m is None else pow(concrete_int(a), concrete_int(b), m)
    return pow(a, b) if m is None else pow(a, b, m)


def m_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None: ENG.logs.append(("print", a)); return
    out = []
    for i, x in enumerate(a):
        if i: out.append(" " if sep is None else sep)
        out.append(to_str(x))
    call(file.write, sstr_cat(out))
    call(file.write, "\n" if end is None else end)
    if flush: call(file.flush)


def m_from_bytes(b, byteorder="big", signed=False):
    d = lift(b, SBytes)
    if d is None: d = SBytes(list(b))
    items = d.items if byteorder == "big" else d.items[::-1]
    if len(items) > 7: raise Unsupported("from_bytes wider than 7")
    v = 0
    for x in items: v = v * 256 + x
    if signed and items:
        n = 8 * len(items)
        if isinstance(v, int): return v - (1 << n) if v >> (n - 1) else v
        e = z3.SignExt(W - n, z3.Extract(n - 1, 0, v.e))
        return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return v


def m_codecs_encode(x, enc="utf-8", *a):
    if enc in ("hex", "hex_codec") and symbolic(x): return enhex(x)
    if isinstance(x, SStr): return x.encode(enc)
    import codecs
    return codecs.encode(x, enc, *a)


def m_codecs_decode(x, enc="utf-8", *a):
    if enc in ("hex", "hex_codec") and symbolic(x): return unhex(x)
    if isinstance(x, SBytes): return x.decode(enc)
    import codecs
    return codecs.decode(x, enc, *a)


def m_fromhex(s):
    if isinstance(s, SStr):
        try: return unhex(s)
        except ValueError: raise ValueError("non-hexadecimal number found in fromhex() arg")
    return bytes.fromhex(s)


def m_json_dumps(x, *a, **k):
    if symbolic(x): return SStr([Tok("json", (freeze_deep(x),), PRINTABLE)])
    return json.dumps(x, *a, **k)


def freeze_deep(x):
    if isinstance(x, dict): return {k: freeze_deep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [freeze_deep(v) for v in x]
    return x


def m_isnan(x): return mkb(z3.fpIsNaN(to_float(x).e)) if isinstance(x, Sym) else math.isnan(x)
def m_isinf(x): return mkb(z3.fpIsInf(to_float(x).e)) if isinstance(x, Sym) else math.isinf(x)
def m_isfinite(x): return mkb(z3.Not(z3.Or(z3.fpIsNaN(to_float(x).e), z3.fpIsInf(to_float(x).e)))) if isinstance(x, Sym) else math.isfinite(x)


def m_floor(x):
    if isinstance(x, SFloat): return x.to_int(z3.RTN())
    return math.floor(x) if not isinstance(x, SInt) else x


def m_ceil(x):
    if isinstance(x, SFloat): return x.to_int(z3.RTP())
    return math.ceil(x) if not isinstance(x, SInt) else x


def m_struct_unpack_from(f, b, offset=0):
    d = lift(b, SBytes)
    if not symbolic(b): return _struct.unpack_from(f, b, offset)
    n = _struct.calcsize(f)
    if len(d) - offset < n: raise _struct.error("unpack_from requires a buffer of at least %d bytes" % (n + offset))
    return struct_unpack(f, SBytes(d.items[offset:offset + n]))


def m_iter(x, *a): return iter(x, *a)
def m_range(*a): return range(*[concrete_int(x) for x in a])
def m_deepcopy(x, memo=None): return copy.deepcopy(x)
def m_hash(x): return hash(x)
def m_repr(x): return to_str(x) if symbolic(x) else repr(x)


def m_set(xs=()):
    return set(xs)


def m_dict(*a, **k): return dict(*a, **k)


import binascii, codecs, re as _re2
DTC = FDTClass()
MODELS = {}


def model(f, g): MODELS[id(f)] = (f, g)


for f, g in [(int, m_int), (float, m_float), (bool, m_bool), (str, m_str), (bytes, m_bytes), (ord, m_ord), (chr, m_chr),
             (round, m_round), (min, m_min), (max, m_max), (sum, m_sum), (sorted, m_sorted), (any, m_any), (all, m_all), (type, m_type), (isinstance, m_isinstance),
             (hex, m_hex), (bin, m_bin), (format, m_format), (divmod, m_divmod), (pow, m_pow), (print, m_print), (repr, m_repr), (range, m_range),
             (_struct.unpack, struct_unpack), (_struct.pack, struct_pack), (_struct.unpack_from, m_struct_unpack_from), (binascii.crc_hqx, crc_hqx),
             (binascii.hexlify, lambda d, *a: enhex(d) if symbolic(d) else binascii.hexlify(d, *a)), (binascii.unhexlify, lambda d: unhex(d) if symbolic(d) else binascii.unhexlify(d)),
             (binascii.a2b_hex, lambda d: unhex(d) if symbolic(d) else binascii.unhexlify(d)), (binascii.b2a_hex, lambda d, *a: enhex(d) if symbolic(d) else binascii.hexlify(d, *a)),
             (codecs.encode, m_codecs_encode), (codecs.decode, m_codecs_decode), (json.dumps, m_json_dumps), (math.isnan, m_isnan), (math.isinf, m_isinf), (math.isfinite, m_isfinite),
             (math.floor, m_floor), (math.ceil, m_ceil), (_time.sleep, lambda s: Clock.sleep(s) if Clock.sleep else None), (_time.time, t_time), (_time.monotonic, t_time), (_time.gmtime, t_gmtime), (_time.strftime, t_strftime),
             (traceback.format_exc, lambda *a, **k: "traceback")]:
    model(f, g)

MUTATING = {"append", "extend", "insert", "add", "update", "put", "put_nowait", "setdefault", "appendleft", "items", "values", "keys", "copy", "clear", "popitem", "get_nowait", "reverse"}


def call(f, *a, **k):
    m = MODELS.get(id(f))
    if m is not None and m[0] is f:
        if f is bytearray: return m_bytearray(*a, **k)
        return m[1](*a, **k)
    if f is bytearray:
        return m_bytearray(*a, **k)
    if isinstance(f, types.BuiltinMethodType) or isinstance(f, types.MethodWrapperType):
        s, n = f.__self__, f.__name__
        if s is int and n == "from_bytes": return m_from_bytes(*a, **k)
        if s is bytes and n == "fromhex": return m_fromhex(*a)
        sy = symbolic(a) or symbolic(k)
        if isinstance(s, str):
            if n == "join":
                a = (list(a[0]),)
                if symbolic(a): return SStr([ord(c) for c in s]).join(a[0])
                return f(*a)
            if n == "format":
                if sy or any(hasattr(type(x), "_sx_str") for x in a): return str_format(s, a, k)
                return f(*a, **k)
            if sy: return getattr(SStr([ord(c) for c in s]), n)(*a, **k)
        elif isinstance(s, (bytes, bytearray)):
            if n == "join":
                a = (list(a[0]),)
                if symbolic(a): return SBytes(list(s)).join(a[0])
                return f(*a)
            if sy: return getattr(SBytes(list(s)), n)(*a, **k)
        elif isinstance(s, dict):
            if n == "update" and a and (has_skey(s) or has_skey(a[0]) or not isinstance(a[0], dict)):
                for q, v in (list(a[0].items()) if isinstance(a[0], dict) else [tuple(x) for x in a[0]]): rt_set(s, q, v)
                for q in k: rt_set(s, q, k[q])
                return None
            if a and (keyish(a[0]) or has_skey(s)) and n in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
                key = dict_key(s, a[0])
                if n == "get": return s[key[0]] if key else (a[1] if len(a) > 1 else None)
                if n == "pop":
                    if key: return s.pop(key[0])
                    if len(a) > 1: return a[1]
                    raise KeyError("symbolic key")
                if n == "__contains__": return bool(key)
                if n == "__getitem__" and key: return s[key[0]]
                if n == "setdefault":
                    if not key: rt_set(s, a[0], a[1] if len(a) > 1 else None); key = dict_key(s, a[0])
                    return s[key[0]]
                raise Unsupported("dict." + n)
        elif isinstance(s, list):
            if sy and n in ("index", "count", "remove"):
                for i, x in enumerate(s):
                    if bool(x == a[0]):
                        if n == "index": return i
                        if n == "remove": del s[i]; return None
                if n == "count": raise Unsupported("list.count")
                raise ValueError("not in list")
            if n == "sort" and symbolic(s):
                s[:] = m_sorted(s, **k); return None
            return f(*a, **k)
        elif isinstance(s, _struct.Struct):
            if n == "unpack": return struct_unpack(s.format, *a)
            if n == "pack": return struct_pack(s.format, *a)
            if n == "unpack_from": return m_struct_unpack_from(s.format, *a, **k)
        elif isinstance(s, set) and sy:
            raise Unsupported("set.%s with a symbolic value" % n)
    # native functions with symbolic arguments
    if (symbolic(a) or symbolic(k)) and not passes(f):
        nf = getattr(f, "__name__", repr(f))
        if isinstance(f, (types.BuiltinFunctionType, type)) and not getattr(f, "_sx_ok", False):
            if f in SAFE_TYPES: return f(*a, **k)
            ENG.concretise_note("argument of native " + nf)
            return f(*[concretise(x) for x in a], **{q: concretise(x) for q, x in k.items()})
    return f(*a, **k)


SAFE_TYPES = {list, tuple, dict, enumerate, zip, map, filter, reversed, iter, next, set, frozenset, object, getattr, setattr, hasattr, id, len, callable, slice, abs, issubclass, property, Exception, ValueError, KeyError, TypeError, RuntimeError, IndexError, super, sum}
SAFE_TYPES |= {x for x in vars(builtins).values() if isinstance(x, type) and issubclass(x, BaseException)}


def passes(f):
    if isinstance(f, (types.FunctionType, types.MethodType)): return True
    if isinstance(f, type): return f in SAFE_TYPES or getattr(f, "__module__", "") not in ("builtins",) and not is_c_type(f)
    if isinstance(f, (types.BuiltinFunctionType,)):
        s = getattr(f, "__self__", None)
        if s is not None and not isinstance(s, types.ModuleType): return f.__name__ in MUTATING or isinstance(s, (list, dict))
        return f in SAFE_TYPES
    return True


def is_c_type(t):
    return not (t.__flags__ & (1 << 9))


def concretise(x):
    if isinstance(x, SInt): return concretise_int(x, "native call")
    if isinstance(x, SBool): return bool(x)
    if isinstance(x, SSeq):
        if x.has_tok(): raise Unsupported("opaque text passed to native code")
        return x.native([concrete_int(i) for i in x.items])
    if isinstance(x, SFloat): raise Unsupported("symbolic float passed to native code")
    if isinstance(x, (list, tuple)): return type(x)(concretise(y) for y in x)
    if isinstance(x, dict): return {k: concretise(v) for k, v in x.items()}
    return x


class SKey(SInt):
    """a symbolic integer used as a dictionary key: found by comparison (dict_key), never by hash"""
    __slots__ = ()
    def __hash__(self): return id(self)


class SKeyText(SStr):
    def __hash__(self): return id(self)


def alike(k, q):
    """the tuple k equals the key q (forks)"""
    return isinstance(q, tuple) and len(k) == len(q) and all(alike(x, y) if isinstance(x, tuple) else bool(x == y) for x, y in zip(k, q))


def keyish(k): return isinstance(k, Sym) or isinstance(k, tuple) and symbolic(k)


def dict_key(d, k):
    """the key of d equal to symbolic k, as a 1-tuple, or None (forks)"""
    kt = pytype(k)
    if kt is tuple:
        for q in list(d):
            if alike(k, q): return (q,)
        return None
    for q in list(d):
        if k is q: return (q,)
        if isinstance(q, kt) or (kt in (int, bool, float) and isinstance(q, (int, float))) or isinstance(q, Sym) and pytype(q) is kt:
            if bool(k == q): return (q,)
    return None


def has_skey(o): return isinstance(o, dict) and any(isinstance(q, Sym) for q in o)


def rt_get(o, k):
    if keyish(k) or (isinstance(o, dict) and o and not isinstance(k, slice) and has_skey(o)):
        if isinstance(o, dict):
            q = dict_key(o, k)
            if q is None: raise KeyError("symbolic key")
            return o[q[0]]
        if isinstance(o, (list, tuple)) and isinstance(k, SInt):
            if not (k >= -len(o)) or not (k < len(o)): raise IndexError("list index out of range")
            if not symbolic(o) and all(isinstance(x, int) and not isinstance(x, bool) for x in o) and len(o) <= 512:
                e = bv(o[0])
                for i in range(1, len(o)):
                    e = z3.If(z3.Or(k.e == i, k.e == i - len(o)), bv(o[i]), e)
                return mkint(e, min(o), max(o))
    elif isinstance(k, slice) and isinstance(o, (list, tuple, str, bytes)):
        if any(isinstance(x, SInt) for x in (k.start, k.stop, k.step)):
            k = slice(*[x.__index__() if isinstance(x, SInt) else x for x in (k.start, k.stop, k.step)])
    return o[k]


def rt_set(o, k, v):
    if isinstance(o, dict) and (keyish(k) or has_skey(o)):
        q = dict_key(o, k)
        if q is not None: o[q[0]] = v; return
        if type(k) is SInt: k = SKey(k.e, k.lo, k.hi)
        elif type(k) is SStr: k = SKeyText(k.items)
        elif isinstance(k, tuple): k = concretise(k)
        elif isinstance(k, Sym) and not isinstance(k, (SKey, SKeyText)): k = concretise(k)
        o[k] = v
        return
    if isinstance(o, (bytearray, )) and symbolic(v): raise Unsupported("symbolic byte into native bytearray")
    o[k] = v


def rt_dict(pairs):
    d = {}
    for star, k, v in pairs:
        if star: 
            for q in v: rt_set(d, q, v[q])
        else: rt_set(d, k, v)
    return d


def rt_in(x, o):
    if isinstance(x, tuple) and symbolic(x) and isinstance(o, (dict, set, frozenset)): return any(alike(x, q) for q in list(o))
    if isinstance(o, str) and isinstance(x, SStr): return SStr([ord(c) for c in o]).find(x) >= 0
    if isinstance(o, bytes) and isinstance(x, SBytes): return SBytes(list(o)).find(x) >= 0
    if isinstance(o, bytes) and isinstance(x, SInt): return bool(sor(*[x == c for c in set(o)]))
    if isinstance(x, Sym) and isinstance(o, range) and isinstance(x, SInt) and o.step == 1: return bool(sand(x >= o.start, x < o.stop))
    if isinstance(o, dict) and (isinstance(x, Sym) or has_skey(o)) and (has_skey(o) or isinstance(x, SStr)): return dict_key(o, x) is not None
    if isinstance(x, Sym) and isinstance(o, (dict, set, frozenset)):
        ks = [q for q in o if isinstance(q, pytype(x)) or (pytype(x) in (int, float) and isinstance(q, (int, float)))]
        if isinstance(x, SInt): return bool(sor(*[x == q for q in ks])) if ks else False
        return any(bool(x == q) for q in ks)
    if isinstance(x, Sym) and isinstance(o, (type({}.keys()),)): return rt_in(x, list(o))
    if isinstance(o, (list, tuple)) and symbolic(o) or isinstance(x, Sym) and isinstance(o, (list, tuple)):
        return any(bool(x == q) for q in o)
    return x in o


def rt_mod(a, b):
    if isinstance(a, str): return pct_format(a, b)
    if isinstance(a, SStr): raise Unsupported("symbolic format string")
    return a % b


def rt_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str): out.append(p); continue
        v, conv, spec = p
        if not (symbolic(v) or hasattr(type(v), "_sx_str")):
            if conv == 115: v = str(v)
            elif conv == 114: v = repr(v)
            out.append(format(v, spec) if not isinstance(spec, SStr) else fmt(v, spec)); continue
        if conv in (115, 114): v = to_str(v)
        out.append(fmt(v, spec) if (isinstance(v, Sym) or spec) else to_str(v))
    return sstr_cat(out)


def mergeable(a, b):
    if type(a) is not type(b) or not isinstance(a, (int, bytes, str)): return False
    return isinstance(a, int) or len(a) == len(b) and (isinstance(a, bytes) or len(a) == 1)


def rt_merge(c, a, b):
    if isinstance(c, SInt): c = c != 0
    if not isinstance(c, SBool) or symbolic(a) or symbolic(b): return a if c else b
    f = lambda p, q: p if p == q else mkint(z3.If(c.e, z3.BitVecVal(p, W), z3.BitVecVal(q, W)), builtins.min(p, q), builtins.max(p, q))
    if isinstance(a, bool): return SBool(c.e if a else z3.Not(c.e)) if a != b else a
    if isinstance(a, int): return f(a, b)
    if isinstance(a, bytes): return SBytes([f(p, q) for p, q in zip(a, b)]).fold()
    return SStr([f(ord(p), ord(q)) for p, q in zip(a, b)]).fold()


def rt_guard():
    e = sys.exc_info()[1]
    if isinstance(e, Internal): raise e


def rt_enter(name):
    ENG.functions[name] = ENG.functions.get(name, 0) + 1


# --------------------------------------------------------------------------- modules
class Loader:
    """instrumented modules of one path"""

    def __init__(self, fakes):
        self.mods, self.fakes = {}, fakes
        self.datetime = FakeModule("datetime", _dt, datetime=DTC, timedelta=FTD)
        self.b = dict(vars(builtins))
        self.b["__import__"] = self.imp
        self.ns = dict(_sxr_call=call, _sxr_fstr=rt_fstr, _sxr_in=rt_in, _sxr_mod=rt_mod, _sxr_get=rt_get, _sxr_set=rt_set, _sxr_guard=rt_guard, _sxr_merge=rt_merge, _sxr_dict=rt_dict, _sxr_enter=rt_enter)
        self.pkg = types.ModuleType("horusdemodlib")
        self.pkg.__path__ = [PKG]
        self.pkg.__file__ = PKG + "/__init__.py"
        self.pkg.__version__ = "0"
        self.mods["horusdemodlib"] = self.pkg
        self.logging = FakeLogging()
        init = PKG + "/__init__.py"
        self.pkg.__dict__.update(self.ns)
        self.pkg.__dict__["__builtins__"] = self.b
        exec(compile_mod(init, "horusdemodlib"), self.pkg.__dict__)

    def load(self, name, path=None):
        full = name if path else "horusdemodlib." + name
        if full in self.mods: return self.mods[full]
        p = path or os.path.join(PKG, name + ".py")
        if not os.path.exists(p): raise ModuleNotFoundError(full)
        m = types.ModuleType(full)
        m.__file__ = p
        m.__package__ = "horusdemodlib" if not path else None
        m.__dict__.update(self.ns)
        m.__dict__["__builtins__"] = self.b
        self.mods[full] = m
        if not path: setattr(self.pkg, name, m)
        exec(compile_mod(p, name), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 1 or name == "horusdemodlib" or name.startswith("horusdemodlib."):
            sub = name[len("horusdemodlib."):] if name.startswith("horusdemodlib.") else ("" if name == "horusdemodlib" else name)
            if sub:
                m = self.load(sub)
                return m if fromlist else self.pkg
            for f in fromlist or ():
                if f != "*" and not hasattr(self.pkg, f): self.load(f)
            return self.pkg
        if name in self.fakes: return self.fakes[name]
        if name == "logging": return self.logging
        if name == "datetime": return self.datetime
        if name == "dateutil.parser" and fromlist: return FakeModule("dateutil.parser", None, parse=dateutil_parse)
        if name == "asn1tools": return FakeModule("asn1tools", None, compile_files=lambda *a, **k: FakeModule("compiled", None), DecodeError=type("DecodeError", (Exception,), {}), ConstraintsError=type("ConstraintsError", (Exception,), {}), EncodeError=type("EncodeError", (Exception,), {}))
        if name in ("_horus_api_cffi",): return FakeModule(name, None, lib=FakeModule("lib"), ffi=FakeModule("ffi"))
        if name == "requests": return FakeModule("requests", None, exceptions=FakeModule("requests.exceptions", None, RequestException=type("RequestException", (IOError,), {})))
        return builtins.__import__(name, globals, locals, fromlist, level)


# --------------------------------------------------------------------------- harness interface
class E:
    """given to a harness; here with symbolic inputs (see replay.py for the concrete twin)"""
    symbolic = True

    def __init__(self, loader, params):
        self.loader, self.params = loader, params
        self.reached = set()

    def _in(self, name, kind, terms):
        if name in ENG.inputs: raise RuntimeError("input %s named twice" % name)
        ENG.inputs[name] = (kind, terms)

    def int(self, name, lo, hi):
        v = z3.BitVec(name, W)
        ENG.assume(SBool(z3.And(v >= lo, v <= hi)))
        self._in(name, "int", v)
        return mkint(v, lo, hi) if lo != hi else lo

    def byte(self, name): return self.int(name, 0, 255)

    def bytes(self, name, n):
        vs = [z3.BitVec("%s_%d" % (name, i), 8) for i in range(n)]
        self._in(name, "bytes", vs)
        return SBytes([SInt(z3.ZeroExt(W - 8, v), 0, 255) for v in vs])

    def str(self, name, n, lo=1, hi=127):
        vs = [z3.BitVec("%s_%d" % (name, i), 8) for i in range(n)]
        self._in(name, "str", vs)
        out = []
        for v in vs:
            e = z3.ZeroExt(W - 8, v)
            ENG.assume(SBool(z3.And(e >= lo, e <= hi)))
            out.append(SInt(e, lo, hi))
        return SStr(out) if out else ""

    def bool(self, name):
        v = z3.Bool(name)
        self._in(name, "bool", v)
        return SBool(v)

    def flag(self, name):
        """a concrete bool: forks"""
        return True if bool(self.bool(name)) else False

    def float(self, name):
        v = z3.FP(name, F64)
        self._in(name, "float", v)
        return SFloat(v)

    def pick(self, name, options):
        """one of the options (forks)"""
        i = self.int(name, 0, len(options) - 1)
        if isinstance(i, int): return options[i]
        for k in range(len(options) - 1):
            if bool(i == k): return options[k]
        return options[-1]

    def mod(self, name): return self.loader.load(name)
    def assume(self, c): ENG.assume(c)
    def check(self, c, msg): ENG.check(c, msg)
    def same(self, a, b): return same(a, b)
    def cover(self, label): ENG.covered.add(label)
    def fail(self, msg): ENG.check(False, msg)
    def near(self, a, b, tol):
        """|a-b| <= tol on numbers, trivially true when structurally the same"""
        s = same(a, b) if isinstance(a, Sym) or isinstance(b, Sym) else False
        if s is True: return True
        return abs(a - b) <= tol

    def now(self, day, sec, us=0):
        Clock.now = FDT(day, sec, us, UTC)

    def clock(self, fn): Clock.t = fn
    def sleeper(self, fn): Clock.sleep = fn
    def dt(self, day, sec, us=0): return FDT(day, sec, us, UTC)
    def dt_parts(self, d): return (d.dn, d.sec, d.us)
    def log(self, level): return [m for l, m in ENG.logs if l == level]
    def implies(self, a, b): return sor(snot(a), b)
    def neg(self, a): return snot(a)
    def both(self, *xs): return sand(*xs)
    def either(self, *xs): return sor(*xs)
    def ite(self, c, a, b):
        if not isinstance(c, SBool): return a if c else b
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            x, y = norm(a), norm(b)
            return mkint(z3.If(c.e, x[0], y[0]), min(x[1], y[1]), max(x[2], y[2]))
        return a if bool(c) else b
    def fake(self, name, **kw):
        """replace a whole imported module before the code under test is loaded"""
        self.loader.fakes[name] = FakeModule(name, None, **kw)
        return self.loader.fakes[name]
    def fake_attrs(self, modname, real, **kw):
        self.loader.fakes[modname] = FakeModule(modname, importlib.import_module(real), **kw)
        return self.loader.fakes[modname]
    def patch(self, obj, name, val): setattr(obj, name, val)
    def text_len_unknown(self, s): return isinstance(s, SStr) and s.has_tok()


def value_of(model, kind, t):
    ev = lambda x: model.eval(x, model_completion=True)
    if kind == "int": return ev(t).as_signed_long()
    if kind in ("bytes", "str"): return [ev(x).as_long() for x in t]
    if kind == "bool": return bool(z3.is_true(ev(t)))
    if kind == "float":
        b = z3.simplify(z3.fpToIEEEBV(ev(t)))
        if not z3.is_bv_value(b): return 0x7ff8000000000000
        return b.as_long()
    raise ValueError(kind)


def explore(path, func, params, budget_s=600, max_paths=20000):
    """run harness `func` of file `path` on every feasible path; returns a result dict"""
    t0 = time.time()
    sx.ENG.__init__()
    eng = sx.ENG
    stack = [[]]
    bad, unsup, paths, samples, covered = [], {}, 0, [], set()
    PICK.clear()
    ended = {}
    while stack:
        if time.time() - t0 > budget_s or paths >= max_paths:
            unsup["budget used up with %d paths open" % len(stack)] = 1
            break
        prefix = stack.pop()
        eng.begin(prefix)
        PICK_keep = len(PICK)
        Opaque16.table = []
        eng.covered = set()
        Clock.now = Clock.t = Clock.sleep = None
        paths += 1
        try:
            ld = Loader({})
            h = ld.load("harness_" + os.path.basename(path)[:-3], path)
            getattr(h, func)(E(ld, params))
            ended["ok"] = ended.get("ok", 0) + 1
            if ended["ok"] in (1, 2, 4, 9, 20, 50, 120, 300) or (len(covered) < len(eng.covered) and len(samples) < 12):
                m = eng.model()
                if m is not None: samples.append({n: [k, value_of(m, k, t)] for n, (k, t) in eng.inputs.items()})
            covered |= eng.covered
        except Infeasible:
            ended["infeasible"] = ended.get("infeasible", 0) + 1
        except Unsupported as ex:
            k = str(ex)
            tb = traceback.extract_tb(ex.__traceback__)
            own = [f for f in tb if not f.filename.startswith(os.path.dirname(__file__) + "/sx")]
            k += " at " + ", ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in own[-2:])
            unsup[k] = unsup.get(k, 0) + 1
        except CheckFailed as ex:
            bad.append(dict(msg=ex.msg, inputs={n: [k, value_of(ex.model, k, t)] for n, (k, t) in eng.inputs.items()}))
        except Internal as ex:
            unsup[repr(ex)] = 1
        except (Exception, SystemExit) as ex:
            m = eng.model()
            tb = traceback.extract_tb(ex.__traceback__)
            own = [f for f in tb if not f.filename.startswith(os.path.dirname(__file__) + "/sx")]
            where = ", ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in own[-2:])
            if m is not None:
                bad.append(dict(msg="raised %s: %s (%s)" % (type(ex).__name__, str(ex)[:100], where), inputs={n: [k, value_of(m, k, t)] for n, (k, t) in eng.inputs.items()}))
            else: ended["infeasible"] = ended.get("infeasible", 0) + 1
        stack += eng.pending
        if len({b["msg"] for b in bad}) >= 4 or len(bad) > 40: break
    return dict(func=func, params=params, paths=paths, queries=eng.queries, solver_s=round(eng.solver_s, 2), wall_s=round(time.time() - t0, 2), bad=bad, undecided=unsup,
                unknown=eng.unknown, unknown_msgs=getattr(eng, "unknown_msgs", [])[:5], checks=eng.checks, labels=eng.labels, functions=eng.functions, concretised=eng.concretised, ended=ended, samples=samples, covered=sorted(covered))
