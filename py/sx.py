"""Symbolic execution of real Python source.

The module under test is read from /repo, its syntax tree is rewritten so that calls, subscripts, `in`, `%` and
f-strings go through this file, and it is then run on proxy values that carry z3 terms.  Every branch on a proxy
asks the solver which sides are feasible; all feasible paths are run (depth first, by re-execution).  A check is
decided on each path by the solver for all inputs of that path.
"""
import ast, builtins, sys, os, time, types, functools, operator
import z3

W = 64
LIM = 1 << 62
SLOW = float(os.environ.get("SXSLOW", "0"))


class Internal(BaseException):
    pass


class Infeasible(Internal):
    pass


class Unsupported(Internal):
    pass


class Budget(Internal):
    pass


class CheckFailed(Internal):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


# --------------------------------------------------------------------------- engine
class Engine:
    def __init__(self, timeout_ms=60000):
        self.solver = None
        self.timeout_ms = timeout_ms
        self.queries = 0
        self.solver_s = 0.0
        self.forks = 0
        self.functions = {}
        self.concretised = {}
        self.unknown = 0
        self.labels = {}
        self.checks = 0
        self.paths = 0

    def begin(self, prefix):
        self.solver = z3.Solver()
        self.inc_ms = 2000
        self.last_model = None
        self.valid_upto = 0
        self.full = z3.Solver()
        self.defs, self.defvars, self.mention = [], set(), {}
        self.pc = []
        self.prefix = list(prefix)
        self.trace = []          # decisions taken
        self.pending = []        # alternative prefixes found on this path
        self.inputs = {}
        self.fresh = 0
        self.logs = []
        self.crc_memo = {}

    def name(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)

    def add(self, c):
        self.solver.add(c)
        self.full.add(c)
        self.pc.append(c)

    def define(self, v, term):
        """name for a checksum state: kept out of the fast solver, which may give it any value"""
        self.full.add(v == term)
        self.defs.append((v, term))
        self.defvars.add(v.get_id())

    def mentions_def(self, x):
        if not self.defvars: return False
        k = x.get_id()
        if k in self.mention: return self.mention[k][0]
        todo, seen, r = [x], set(), False
        while todo:
            y = todo.pop()
            i = y.get_id()
            if i in seen: continue
            seen.add(i)
            if i in self.defvars: r = True; break
            todo += y.children()
        self.mention[k] = (r, x)
        return r

    def query(self, *assumps):
        t = time.time()
        r = self._query(assumps)
        self.queries += 1
        self.solver_s += time.time() - t
        if SLOW and time.time() - t > SLOW:
            print("slow query %.1fs %s" % (time.time() - t, r), [str(a)[:200] for a in assumps], file=sys.stderr)
        return r

    def _query(self, assumps):
        self.solver.set("timeout", self.inc_ms)
        r = self.solver.check(*assumps)
        if r == z3.unsat: return r
        if r == z3.sat:
            m = Mdl(self.solver.model(), self)
            if not self.defs or all(m.true(c) for c in self.pc) and all(m.true(c) for c in assumps):
                self.last_model, self.valid_upto = m, len(self.pc)
                return r
            self.full.set("timeout", self.inc_ms)
            r = self.full.check(*assumps)
            if r == z3.sat:
                self.last_model, self.valid_upto = Mdl(self.full.model(), self), 0
            if r != z3.unknown: return r
        self.inc_ms = max(150, self.inc_ms // 3)
        self.oneshot = getattr(self, "oneshot", 0) + 1      # hard for the incremental core: one-shot bit-blasting
        for tac in (("simplify", "propagate-values", "fpa2bv", "simplify", "bit-blast", "sat"), ("simplify", "solve-eqs", "smt")):
            try:
                s = z3.Then(*tac).solver()
                s.set("timeout", self.timeout_ms)
                s.add(self.full.assertions())
                s.add(*assumps)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                self.last_model, self.valid_upto = Mdl(s.model(), self), 0
            if r != z3.unknown: return r
        return r

    def assume(self, c):
        """c: bool or SBool. Path ends silently if it cannot hold."""
        if isinstance(c, SBool):
            c = c.e
        elif not is_z3(c):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)
        if len(self.trace) >= len(self.prefix) and self.query() == z3.unsat:
            raise Infeasible()

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
            d = c if v else z3.Not(c)
            self.add(d)
            return v
        # the last model satisfies the path condition (each query adds only what it then takes): one side for free
        known = self.holds(c)
        rt = z3.sat if known is True else self.query(c)
        mt = self.last_model
        rf = z3.sat if known is False or rt == z3.unsat else self.query(z3.Not(c))
        if rt == z3.sat: self.last_model = mt
        if rt == z3.unknown:
            self.unknown += 1
        if rf == z3.unknown:
            self.unknown += 1
        if rt == z3.unsat:
            v, both = False, False
        elif rf == z3.unsat:
            v, both = True, False
        else:
            v, both = True, True
        if both:
            self.forks += 1
            self.pending.append(self.trace + [False])
            self.trace.append(True)
            self.add(c)
            return True
        # forced: no need to record a decision, but it is cheap and keeps re-execution in step
        self.trace.append(v)
        d = c if v else z3.Not(c)
        self.add(d)
        return v

    def must(self, c):
        """does c hold on the whole path? (no fork; the answer is part of the trace)"""
        if not isinstance(c, SBool): return bool(c)
        k = len(self.trace)
        if k < len(self.prefix): v = self.prefix[k]
        else: v = self.holds(c.e) is not False and self.query(z3.Not(c.e)) == z3.unsat
        self.trace.append(v)
        return v

    def holds(self, c):
        """truth of c in the last model, None when there is none or it violates the path condition"""
        m = self.last_model
        if m is None: return None
        for i in range(self.valid_upto, len(self.pc)):
            if not m.true(self.pc[i]):
                self.last_model = None
                return None
        self.valid_upto = len(self.pc)
        return m.truth(c)

    def check(self, c, msg):
        self.checks += 1
        self.labels[msg] = self.labels.get(msg, 0) + 1
        if isinstance(c, SBool):
            c = c.e
        elif not is_z3(c):
            c = z3.BoolVal(bool(c))
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if len(self.trace) < len(self.prefix):
            return          # decided when this prefix was first run
        r = self.query(z3.Not(c))
        if r == z3.sat:
            raise CheckFailed(msg, self.last_model)
        if r == z3.unknown:
            self.unknown += 1
            self.unknown_msgs = getattr(self, "unknown_msgs", []) + [msg]
        self.add(c)

    def model(self):
        r = self.query()
        if r == z3.sat:
            return self.last_model
        return None

    def concretise_note(self, what):
        self.concretised[what] = self.concretised.get(what, 0) + 1


class Mdl:
    """a model in which the named checksum states have the values their definitions give them"""
    def __init__(self, m, eng):
        self.m, self.eng, self.pairs = m, eng, []

    def sync(self):
        for v, t in self.eng.defs[len(self.pairs):]:
            t = z3.substitute(t, self.pairs) if self.pairs else t
            self.pairs.append((v, self.m.eval(t, model_completion=True)))

    def eval(self, x, model_completion=True):
        if self.eng.mentions_def(x):
            self.sync()
            x = z3.substitute(x, self.pairs)
        return self.m.eval(x, model_completion=True)

    def truth(self, c):
        try: v = self.eval(c)
        except z3.Z3Exception: return None
        return True if z3.is_true(v) else (False if z3.is_false(v) else None)

    def true(self, c): return self.truth(c) is True


ENG = Engine()


def is_z3(x):
    return isinstance(x, z3.ExprRef)


# --------------------------------------------------------------------------- values
class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def bv(v):
    return z3.BitVecVal(v, W)


class SBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __invert__(self):
        raise Unsupported("~bool")

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(z3.And(self.e, to_bool(o)))
        return self.int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(z3.Or(self.e, to_bool(o)))
        return self.int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(z3.Xor(self.e, to_bool(o)))
        return self.int() ^ o
    __rxor__ = __xor__

    def int(self):
        return SInt(z3.If(self.e, bv(1), bv(0)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.e == to_bool(o))
        return self.int() == o

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__

    def __getattr__(self, n):
        if n.startswith("__") and n in ("__add__", "__mul__"):
            raise AttributeError(n)
        raise AttributeError(n)

    def __add__(self, o): return self.int() + o
    def __radd__(self, o): return o + self.int()
    def __sub__(self, o): return self.int() - o
    def __rsub__(self, o): return o - self.int()
    def __mul__(self, o): return self.int() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return self.int() << o
    def __lt__(self, o): return self.int() < o
    def __le__(self, o): return self.int() <= o
    def __gt__(self, o): return self.int() > o
    def __ge__(self, o): return self.int() >= o


def to_bool(x):
    if isinstance(x, SBool):
        return x.e
    return z3.BoolVal(bool(x))


def snot(x):
    return SBool(z3.Not(x.e)) if isinstance(x, SBool) else (not x)


def sand(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    return SBool(z3.And([to_bool(x) for x in xs]))


def sor(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and not x)]
    if any(isinstance(x, bool) for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else SBool(z3.Or([to_bool(x) for x in xs]))


def mkint(e, lo, hi):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    if lo < -LIM or hi > LIM:
        raise Unsupported("integer range beyond 62 bits")
    return SInt(e, lo, hi)


def norm(o):
    """python int/bool/SBool/SInt -> (e, lo, hi) or None"""
    if isinstance(o, SInt):
        return o.e, o.lo, o.hi
    if isinstance(o, SBool):
        o = o.int()
        return o.e, 0, 1
    if isinstance(o, int):
        o = int(o)
        if not -LIM <= o <= LIM:
            return None
        return bv(o), o, o
    return None


def big(o):
    return isinstance(o, int) and not -LIM <= o <= LIM


def bits(n):
    return max(1, n.bit_length())


class SInt(Sym):
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    # arithmetic
    def __add__(self, o):
        if isinstance(o, (float, SFloat)): return to_float(self) + o
        n = norm(o)
        if n is None: return NotImplemented
        return mkint(self.e + n[0], self.lo + n[1], self.hi + n[2])
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (float, SFloat)): return to_float(self) - o
        n = norm(o)
        if n is None: return NotImplemented
        return mkint(self.e - n[0], self.lo - n[2], self.hi - n[1])

    def __rsub__(self, o):
        if isinstance(o, (float, SFloat)): return o - to_float(self)
        n = norm(o)
        if n is None: return NotImplemented
        return mkint(n[0] - self.e, n[1] - self.hi, n[2] - self.lo)

    def __mul__(self, o):
        if isinstance(o, (float, SFloat)): return to_float(self) * o
        if isinstance(o, (list, str, bytes, SSeq)): return o * self.__index__()
        n = norm(o)
        if n is None: return NotImplemented
        c = [self.lo * n[1], self.lo * n[2], self.hi * n[1], self.hi * n[2]]
        return mkint(self.e * n[0], min(c), max(c))
    __rmul__ = __mul__

    def __floordiv__(self, o): return idiv(self, o)[0]
    def __rfloordiv__(self, o): return idiv(o, self)[0]
    def __mod__(self, o): return idiv(self, o)[1]
    def __rmod__(self, o): return idiv(o, self)[1]
    def __divmod__(self, o): return idiv(self, o)
    def __rdivmod__(self, o): return idiv(o, self)

    def __truediv__(self, o): return to_float(self) / o
    def __rtruediv__(self, o): return to_float(o) / self

    def __neg__(self): return mkint(-self.e, -self.hi, -self.lo)
    def __pos__(self): return self

    def __abs__(self):
        if self.lo >= 0: return self
        return mkint(z3.If(self.e < 0, -self.e, self.e), 0, max(-self.lo, self.hi))

    def __invert__(self): return mkint(~self.e, ~self.hi, ~self.lo)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o): r = r * self
            return r
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        n = norm(o)
        if n is None: return NotImplemented
        if n[1] >= 0: lo, hi = 0, (min(n[2], self.hi) if self.lo >= 0 else n[2])
        elif self.lo >= 0: lo, hi = 0, self.hi
        else:
            k = max(bits(self.lo), bits(self.hi), bits(n[1]), bits(n[2]))
            lo, hi = -(1 << k), (1 << k) - 1
        return mkint(self.e & n[0], lo, hi)
    __rand__ = __and__

    def _or(self, o, f):
        n = norm(o)
        if n is None: return NotImplemented
        k = max(bits(self.lo), bits(self.hi), bits(n[1]), bits(n[2]))
        lo = 0 if self.lo >= 0 and n[1] >= 0 else -(1 << k)
        return mkint(f(self.e, n[0]), lo, (1 << k) - 1)

    def __or__(self, o): return self._or(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._or(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o):
        o = concrete_int(o)
        if o < 0: raise ValueError("negative shift count")
        return mkint(self.e << o, self.lo << o, self.hi << o)

    def __rlshift__(self, o): return o << self.__index__()

    def __rshift__(self, o):
        o = concrete_int(o)
        if o < 0: raise ValueError("negative shift count")
        o = min(o, 63)
        return mkint(self.e >> o, self.lo >> o, self.hi >> o)

    def __rrshift__(self, o): return o >> self.__index__()

    # comparison
    def _cmp(self, o, f, ff):
        if isinstance(o, (float, SFloat)): return ff(to_float(self), o)
        if big(o): return ff(0, 1 if o > 0 else -1)
        n = norm(o)
        if n is None: return NotImplemented
        e = z3.simplify(f(self.e, n[0]))
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return SBool(e)

    def __lt__(self, o):
        n = norm(o)
        if n and self.hi < n[1]: return True
        if n and self.lo >= n[2]: return False
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        n = norm(o)
        if n and self.hi <= n[1]: return True
        if n and self.lo > n[2]: return False
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        n = norm(o)
        if n and self.lo > n[2]: return True
        if n and self.hi <= n[1]: return False
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        n = norm(o)
        if n and self.lo >= n[2]: return True
        if n and self.hi < n[1]: return False
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        n = norm(o)
        if n is None:
            if isinstance(o, (float, SFloat)): return to_float(self) == o
            return False
        if self.hi < n[1] or self.lo > n[2]: return False
        return self._cmp(o, lambda a, b: a == b, None)

    def __ne__(self, o): return snot(self == o)

    def __bool__(self): return bool(self != 0)

    def __hash__(self): raise Unsupported("hash of a symbolic integer")

    def __index__(self): return concretise_int(self, "integer used as an index or by native code")
    __int__ = __index__

    def __float__(self): raise Unsupported("native float()")
    def __round__(self, n=None): return self
    def bit_length(self): return self.__index__().bit_length()
    def is_integer(self): return True

    def to_bytes(self, length=1, byteorder="big", signed=False):
        length = concrete_int(length)
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not (self >= lo) or not (self <= hi): raise OverflowError("int too big to convert")
        r = [mkint(z3.ZeroExt(W - 8, z3.Extract(8 * i + 7, 8 * i, self.e)), 0, 255) for i in range(min(length, 8))]
        if length > 8: raise Unsupported("to_bytes wider than 8")
        if byteorder == "big": r.reverse()
        return SBytes(r)

    def __repr__(self): return "<SInt %d..%d>" % (self.lo, self.hi)
    def __str__(self): return repr(self)
    def __format__(self, spec): return repr(self)


def concrete_int(x):
    return x if isinstance(x, int) else x.__index__()


def concretise_int(x, why):
    e = z3.simplify(x.e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    span = x.hi - x.lo
    if span > 4096:
        ENG.concretise_note(why)
    for _ in range(4097):
        k = len(ENG.trace)
        if k < len(ENG.prefix) or True:
            # deterministic choice: smallest feasible value by model, recorded through decide()
            v = ENG_pick(x)
            if ENG.decide(x.e == bv(v)):
                return v
    raise Unsupported("too many values for " + why)


def ENG_pick(x):
    """a feasible value of x; deterministic for a given path (needed for re-execution)"""
    key = (len(ENG.trace), x.e.hash())
    cache = PICK
    t = tuple(ENG.trace)
    if t in cache and cache[t][0].eq(x.e):
        return cache[t][1]
    if ENG.query() != z3.sat:
        raise Infeasible()
    v = ENG.last_model.eval(x.e, model_completion=True).as_signed_long()
    cache[t] = (x.e, v)
    return v


PICK = {}


def idiv(a, b):
    if isinstance(a, (float, SFloat)) or isinstance(b, (float, SFloat)):
        raise Unsupported("floating floor division")
    na, nb = norm(a), norm(b)
    if na is None or nb is None:
        raise Unsupported("division operands")
    if nb[1] <= 0 <= nb[2]:
        if (b == 0) if not isinstance(b, SInt) else bool(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
    x, y = na[0], nb[0]
    if na[1] >= 0 and nb[1] > 0:
        if nb[1] == nb[2] and nb[1] & (nb[1] - 1) == 0:
            s = nb[1].bit_length() - 1
            q, r = z3.LShR(x, s), x & bv(nb[1] - 1)
        else:
            w = max(na[2].bit_length(), nb[2].bit_length())     # narrow division: far cheaper for the solver
            xs, ys = z3.Extract(w - 1, 0, x), z3.Extract(w - 1, 0, y)
            q, r = z3.ZeroExt(W - w, z3.UDiv(xs, ys)), z3.ZeroExt(W - w, z3.URem(xs, ys))
        return mkint(q, na[1] // nb[2], na[2] // nb[1]), mkint(r, 0, min(na[2], nb[2] - 1))
    q0 = x / y
    r0 = z3.SRem(x, y)
    adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
    q, r = z3.If(adj, q0 - 1, q0), z3.If(adj, r0 + y, r0)
    m = max(abs(na[1]), abs(na[2])) + 1
    d = max(abs(nb[1]), abs(nb[2]))
    if nb[1] == nb[2]:
        c = [na[1] // nb[1], na[2] // nb[1]]
        return mkint(q, min(c), max(c)), mkint(r, min(0, nb[1] + 1), max(0, nb[1] - 1))
    return mkint(q, -m, m), mkint(r, -d, d)


# --------------------------------------------------------------------------- floats
F64 = z3.Float64()
RNE = z3.RNE()
RTZ = z3.RTZ()
_round_fn = {}


class SFloat(Sym):
    __slots__ = ("e", "finite", "src")

    def __init__(self, e, finite=False, src=None):
        """src: (SInt, ops) when the value is a chain of operations with constants on one integer"""
        self.e, self.finite, self.src = e, finite, src

    def _bin(self, o, f, rev=False, op=None):
        b = to_float(o)
        if b is None: return NotImplemented
        if op in ("+", "-"):
            u, v = exact_int(self), exact_int(o)
            if u is not None and v is not None:
                u, v = (v, u) if rev else (u, v)
                t = u + v if op == "+" else u - v
                if isinstance(t, int): return to_float(float(t))
                if t.lo >= -(1 << 53) and t.hi <= 1 << 53: return to_float(t)
        x, y = (b.e, self.e) if rev else (self.e, b.e)
        r = SFloat(z3.simplify(f(x, y)))
        if self.src and op and isinstance(o, (int, float)) and abs(o) < 1e100 and (o == 0 and op in "+-" or abs(o) > 1e-100) and not (rev and op == "/") and len(self.src[1]) < 6:
            r.src = (self.src[0], self.src[1] + ((op, float(o), rev and op == "-"),))
            r.finite = True
        return r

    def _cmp_src(self, o, op):
        """compare a monotone chain with a constant: becomes a bound on the integer"""
        x, ops = self.src
        down = sum(1 for p, c, rv in ops if (p in "*/" and c < 0) or rv) % 2 == 1
        hold = lambda v: op(chain(ops, v), o)
        lo, hi = x.lo, x.hi
        a, b = hold(lo), hold(hi)
        if a == b: return a
        while hi - lo > 1:
            m = (lo + hi) // 2
            if hold(m) == a: lo = m
            else: hi = m
        return (x <= lo) if a else (x >= hi)

    def __add__(self, o): return self._bin(o, lambda a, b: z3.fpAdd(RNE, a, b), op="+")
    def __radd__(self, o): return self._bin(o, lambda a, b: z3.fpAdd(RNE, a, b), True, "+")
    def __sub__(self, o): return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b), op="-")
    def __rsub__(self, o): return self._bin(o, lambda a, b: z3.fpSub(RNE, a, b), True, "-")
    def __mul__(self, o): return self._bin(o, lambda a, b: z3.fpMul(RNE, a, b), op="*")
    def __rmul__(self, o): return self._bin(o, lambda a, b: z3.fpMul(RNE, a, b), True, "*")

    def __truediv__(self, o):
        b = to_float(o)
        if b is None: return NotImplemented
        z = mkb(z3.fpIsZero(b.e))
        if bool(z) if isinstance(z, SBool) else z: raise ZeroDivisionError("float division by zero")
        r = self._bin(o, lambda a, b: z3.fpDiv(RNE, a, b), op="/")
        if isinstance(o, (int, float)) and abs(o) >= 1 and self.finite: r.finite = True
        return r

    def __rtruediv__(self, o): return to_float(o) / self
    def __neg__(self): return SFloat(z3.fpNeg(self.e), self.finite)
    def __pos__(self): return self
    def __abs__(self): return SFloat(z3.fpAbs(self.e), self.finite)

    def _cmp(self, o, f):
        b = to_float(o)
        if b is None: return NotImplemented
        return mkb(f(self.e, b.e))

    def __lt__(self, o): return self._cmp_src(o, operator.lt) if self.src and isinstance(o, (int, float)) and o == o else self._cmp(o, z3.fpLT)
    def __le__(self, o): return self._cmp_src(o, operator.le) if self.src and isinstance(o, (int, float)) and o == o else self._cmp(o, z3.fpLEQ)
    def __gt__(self, o): return self._cmp_src(o, operator.gt) if self.src and isinstance(o, (int, float)) and o == o else self._cmp(o, z3.fpGT)
    def __ge__(self, o): return self._cmp_src(o, operator.ge) if self.src and isinstance(o, (int, float)) and o == o else self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        b = to_float(o)
        if b is None: return False
        if self.e.eq(b.e) and (self.finite or b.finite): return True
        if self.e.eq(b.e): return mkb(z3.Not(z3.fpIsNaN(self.e)))
        if self.src and b.src and plain_ops(self.src[1]) == plain_ops(b.src[1]) and ENG.must(self.src[0] == b.src[0]): return True
        return mkb(z3.fpEQ(self.e, b.e))

    def __ne__(self, o): return snot(self == o)
    def __bool__(self): return bool(self != 0.0)
    def __hash__(self): raise Unsupported("hash of a symbolic float")
    def __float__(self): raise Unsupported("native float()")

    def to_int(self, mode=RTZ):
        if not self.finite:
            if mkbool(z3.fpIsNaN(self.e)): raise ValueError("cannot convert float NaN to integer")
            if mkbool(z3.fpIsInf(self.e)): raise OverflowError("cannot convert float infinity to integer")
        lim = z3.FPVal(float(1 << 52), F64)
        if not mkbool(z3.And(z3.fpLEQ(self.e, lim), z3.fpGEQ(self.e, z3.fpNeg(lim)))):
            raise Unsupported("float to integer beyond 52 bits")
        return mkint(z3.fpToSBV(mode, self.e, z3.BitVecSort(W)), -(1 << 52), 1 << 52)

    def __round__(self, n=None):
        if n is None: return self.to_int(RNE)
        f = _round_fn.setdefault(n, z3.Function("round_%d" % n, F64, F64))
        return SFloat(f(self.e), self.finite)

    def is_integer(self):
        return mkb(z3.fpEQ(z3.fpRoundToIntegral(RTZ, self.e), self.e))

    def __repr__(self): return "<SFloat>"
    __str__ = __repr__
    def __format__(self, spec): return repr(self)


def exact_int(o):
    """the integer a float value is exactly equal to (as +0.0 when zero), when known"""
    if isinstance(o, SFloat): return o.src[0] if o.src and not o.src[1] else None
    if isinstance(o, bool): return int(o)
    if isinstance(o, SBool): return o.int()
    if isinstance(o, (int, SInt)): return o
    if isinstance(o, float) and o == o and abs(o) < 1 << 53 and o == int(o) and not (o == 0 and str(o)[0] == "-"): return int(o)
    return None


def plain_ops(ops):
    """the operations that change the value"""
    return tuple(t for t in ops if not (t[0] in "+-" and t[1] == 0 and not t[2] or t[0] in "*/" and t[1] == 1))


def chain(ops, v):
    v = float(v)
    for p, c, rv in ops:
        v = v + c if p == "+" else (c - v if rv else v - c) if p == "-" else v * c if p == "*" else v / c
    return v


def mkb(e):
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SBool(e)


def mkbool(e):
    return bool(mkb(e))


def to_float(o):
    if isinstance(o, SFloat): return o
    if isinstance(o, (bool, SBool)): o = o.int() if isinstance(o, SBool) else int(o)
    if isinstance(o, (int, float)):
        f = float(o)
        if f != f: return SFloat(z3.fpNaN(F64))
        return SFloat(z3.FPVal(f, F64), f not in (float("inf"), float("-inf")))
    if isinstance(o, SInt):
        if o.lo < -(1 << 53) or o.hi > (1 << 53): raise Unsupported("int to float beyond 53 bits")
        w = max(bits(o.lo), bits(o.hi)) + 1
        return SFloat(z3.fpSignedToFP(RNE, z3.Extract(w - 1, 0, o.e), F64), True, (o, ()))
    return None


# --------------------------------------------------------------------------- sequences
class Tok:
    """text of unknown spelling: the result of formatting value(s) in a known way"""
    __slots__ = ("kind", "args", "alphabet")

    def __init__(self, kind, args, alphabet="0123456789+-.einfa"):
        self.kind, self.args, self.alphabet = kind, tuple(args), alphabet

    def eq(self, o):
        if not isinstance(o, Tok) or self.kind != o.kind or len(self.args) != len(o.args): return False
        return sand(*[same(a, b) for a, b in zip(self.args, o.args)])

    def __repr__(self): return "{%s}" % self.kind


def same(a, b):
    """bit for bit the same value (NaN is the same as NaN)"""
    if isinstance(a, (SFloat, float)) and isinstance(b, (SFloat, float)):
        a, b = to_float(a), to_float(b)
        x, y = a.e, b.e
        if x.eq(y): return True
        if a.src and b.src and plain_ops(a.src[1]) == plain_ops(b.src[1]):
            c = a.src[0] == b.src[0]
            if isinstance(c, SBool): c = True if ENG.query(z3.Not(c.e)) == z3.unsat else c
            if c is True: return True
        return mkb(x == y)
    if isinstance(a, Sym) or isinstance(b, Sym):
        ka, kb = pytype(a), pytype(b)
        if ka != kb: return False
        return a == b
    if isinstance(a, Tok) or isinstance(b, Tok):
        return a.eq(b) if isinstance(a, Tok) else False
    if isinstance(a, (list, tuple)) and type(a) == type(b):
        return len(a) == len(b) and sand(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and sand(*[same(a[k], b[k]) for k in a])
    return type(a) == type(b) and a == b


class SSeq(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def has_tok(self):
        return any(isinstance(x, Tok) for x in self.items)

    def is_concrete(self):
        return all(isinstance(x, int) for x in self.items)

    def fold(self):
        """back to a native value when nothing symbolic is left"""
        if self.is_concrete(): return self.native([int(x) for x in self.items])
        return self

    def __len__(self):
        if self.has_tok(): raise Unsupported("len of text with an opaque part")
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0      # tokens are never empty

    def coerce(self, o):
        if isinstance(o, type(self)): return o.items
        if isinstance(o, self.nat): return list(self.conv(o))
        if self.nat is bytes and isinstance(o, bytearray): return list(o)
        return None

    def __eq__(self, o):
        i = self.coerce(o)
        if i is None: return False
        return seq_eq(self.items, i)

    def __ne__(self, o): return snot(self == o)
    def __hash__(self): raise Unsupported("hash of symbolic text")

    def __add__(self, o):
        i = self.coerce(o)
        if i is None: raise TypeError("cannot concatenate")
        return type(self)(self.items + i)

    def __radd__(self, o):
        i = self.coerce(o)
        if i is None: raise TypeError("cannot concatenate")
        return type(self)(i + self.items)

    def __mul__(self, n): return type(self)(self.items * concrete_int(n))
    __rmul__ = __mul__

    def _slice(self, s):
        if self.has_tok():
            # allow prefix slices that stay clear of tokens
            st, en = s.start or 0, s.stop
            toks = [k for k, x in enumerate(self.items) if isinstance(x, Tok)]
            if st >= 0 and s.step is None and st <= toks[0] and (en is None):
                return type(self)(self.items[st:]).fold()
            if st >= 0 and s.step is None and en is not None and 0 <= en <= toks[0]:
                return type(self)(self.items[st:en]).fold()
            raise Unsupported("slice of text with an opaque part")
        return type(self)(self.items[s]).fold()

    def __iter__(self):
        if self.has_tok(): raise Unsupported("iterating text with an opaque part")
        return iter([self.elem(x) for x in self.items])

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[None if x is None else concrete_int(x) for x in (k.start, k.stop, k.step)])
            return self._slice(k)
        if self.has_tok():
            if isinstance(k, int) and k >= 0 and not any(isinstance(x, Tok) for x in self.items[:k + 1]) and k < len(self.items):
                return self.elem(self.items[k])
            raise Unsupported("index into text with an opaque part")
        if isinstance(k, SInt):
            if not (k >= -len(self.items)) or not (k < len(self.items)): raise IndexError("index out of range")
        return self.elem(self.items[concrete_int(k)])

    def __contains__(self, x):
        return self.find(x) >= 0

    def match_at(self, i, sub):
        """does sub occur at item i (forks)"""
        if i + len(sub) > len(self.items): return False
        c = seq_eq(self.items[i:i + len(sub)], sub)
        return bool(c)

    def find(self, x, start=0, end=None):
        sub = self.coerce(x)
        if sub is None:
            if self.nat is bytes and isinstance(x, (int, SInt)): sub = [x]
            else: raise TypeError("bad operand for find")
        stop = len(self.items) if end is None else min(end, len(self.items))
        for i in range(start, stop - len(sub) + 1):
            if self.match_at(i, sub): return i
        return -1

    def rfind(self, x, start=0, end=None):
        sub = self.coerce(x)
        for i in range(len(self.items) - len(sub), start - 1, -1):
            if self.match_at(i, sub): return i
        return -1

    def index(self, x, *a):
        r = self.find(x, *a)
        if r < 0: raise ValueError("substring not found")
        return r

    def count(self, x):
        return len(self.split(x)) - 1

    def startswith(self, p, start=0):
        if isinstance(p, tuple): return any(self.startswith(q, start) for q in p)
        return self.match_at(start, self.coerce(p))

    def endswith(self, p):
        if isinstance(p, tuple): return any(self.endswith(q) for q in p)
        sub = self.coerce(p)
        return len(sub) <= len(self.items) and self.match_at(len(self.items) - len(sub), sub)

    def mk(self, items): return type(self)(items).fold()

    def split(self, sep=None, maxsplit=-1):
        out, cur, i = [], [], 0
        if sep is None:
            for k, x in enumerate(self.items):
                if self.isspace_item(x):
                    if cur:
                        out.append(self.mk(cur)); cur = []
                else: cur.append(x)
            if cur: out.append(self.mk(cur))
            if maxsplit != -1: raise Unsupported("split() with maxsplit")
            return out
        sub = self.coerce(sep)
        if not sub: raise ValueError("empty separator")
        while i < len(self.items):
            if (maxsplit < 0 or len(out) < maxsplit) and self.match_at(i, sub):
                out.append(self.mk(cur)); cur = []; i += len(sub)
            else:
                cur.append(self.items[i]); i += 1
        out.append(self.mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0: return self.split(sep)
        out, items, sub = [], self.items, self.coerce(sep)
        end = len(items)
        i = end - len(sub)
        while i >= 0 and len(out) < maxsplit:
            if self.match_at(i, sub):
                out.append(self.mk(items[i + len(sub):end])); end = i; i -= len(sub)
            else: i -= 1
        out.append(self.mk(items[:end]))
        return out[::-1]

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, self.native([]), self.native([]))

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self.native([]), self.native([]), self)

    def splitlines(self, keepends=False):
        r = self.split(self.native([10]))
        if r and len(r[-1]) == 0: r.pop()
        return r

    def _stripset(self, chars):
        if chars is None: return self.isspace_item
        s = self.coerce(chars)
        return lambda x: (not isinstance(x, Tok)) and bool(sor(*[seq_eq([x], [c]) for c in s]))

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def _strip(self, chars, l, r):
        f = self._stripset(chars)
        a, b = 0, len(self.items)
        while l and a < b and f(self.items[a]): a += 1
        while r and b > a and f(self.items[b - 1]): b -= 1
        return self.mk(self.items[a:b])

    def isspace_item(self, x):
        if isinstance(x, Tok): return False
        if isinstance(x, int): return x in SPACES
        return bool(sor(*[(x >= 9) & (x <= 13) if True else None, x == 32] + ([sand(x >= 28, x <= 31)] if self.nat is str else [])))

    def replace(self, a, b, n=-1):
        sa, sb = self.coerce(a), self.coerce(b)
        out, i, k = [], 0, 0
        if not sa: raise Unsupported("replace of empty text")
        while i < len(self.items):
            if (n < 0 or k < n) and self.match_at(i, sa):
                out += sb; i += len(sa); k += 1
            else:
                out.append(self.items[i]); i += 1
        return self.mk(out)

    def join(self, parts):
        out = []
        for k, p in enumerate(parts):
            if k: out += self.items
            c = self.coerce(p)
            if c is None: raise TypeError("sequence item %d: wrong type" % k)
            out += c
        return self.mk(out)

    def _case(self, up):
        out = []
        for x in self.items:
            if isinstance(x, Tok):
                if x.kind == "hexmin":
                    out.append(Tok("HEXMIN", x.args, x.alphabet.upper()) if up else x); continue
                if x.kind in ("hex", "crc") : raise Unsupported("case change of opaque text")
                out.append(Tok("upper" if up else "lower", (x,), x.alphabet.upper() if up else x.alphabet.lower()) if any(c.isalpha() for c in x.alphabet) else x)
            elif isinstance(x, int):
                out.append(ord(chr(x).upper()) if up and x < 128 else (ord(chr(x).lower()) if x < 128 else x))
            else:
                if up: e = z3.If(z3.And(x.e >= 97, x.e <= 122), x.e - 32, x.e)
                else: e = z3.If(z3.And(x.e >= 65, x.e <= 90), x.e + 32, x.e)
                if x.hi > 127: raise Unsupported("case change beyond ASCII")
                out.append(mkint(e, x.lo if not up else min(x.lo, 65), 127 if not up or x.hi < 97 else x.hi))
        return self.mk(out)

    def upper(self): return self._case(True)
    def lower(self): return self._case(False)

    def _all(self, f):
        return len(self.items) > 0 and bool(sand(*[f(x) for x in self.items]))

    def isdigit(self): return self._all(lambda x: sand(x >= 48, x <= 57))
    isdecimal = isnumeric = isdigit
    def isalpha(self): return self._all(lambda x: sor(sand(x >= 65, x <= 90), sand(x >= 97, x <= 122)))
    def isalnum(self): return self._all(lambda x: sor(sand(x >= 48, x <= 57), sand(x >= 65, x <= 90), sand(x >= 97, x <= 122)))
    def isspace(self): return len(self.items) > 0 and all(self.isspace_item(x) for x in self.items)
    def isascii(self): return self._all(lambda x: x < 128)

    def zfill(self, n):
        if self.has_tok():
            if len(self.items) == 1 and self.items[0].kind == "d": return fmt(self.items[0].args[0], "0%dd" % n)
            if len(self.items) == 1 and self.items[0].kind in ("hexmin", "HEXMIN") and self.items[0].args[0].hi < 16 ** n:
                x = self.items[0].args[0]
                return self.mk([nibble((x >> (4 * (n - 1 - k))) & 15, self.items[0].kind == "HEXMIN") for k in range(n)])
            t = [x for x in self.items if isinstance(x, Tok)]
            if len(self.items) == 1: return type(self)([Tok("zfill%d" % n, (t[0],), t[0].alphabet)])
            raise Unsupported("zfill")
        k = n - len(self.items)
        if k <= 0: return self
        if self.items and bool(sor(*[seq_eq([self.items[0]], [c]) for c in (43, 45)])):
            return self.mk(self.items[:1] + [48] * k + self.items[1:])
        return self.mk([48] * k + self.items)

    def ljust(self, n, c=" "): return self.mk(self.items + self.coerce(c) * max(0, n - len(self)))
    def rjust(self, n, c=" "):
        if len(self.items) == 1 and isinstance(self.items[0], Tok) and c == "0" and self.items[0].kind in ("d", "hexmin", "HEXMIN") and self.items[0].args[0].lo >= 0:
            return self.zfill(n)
        return self.mk(self.coerce(c) * max(0, n - len(self)) + self.items)

    def removeprefix(self, p): return self.mk(self.items[len(p):]) if self.startswith(p) else self
    def removesuffix(self, p): return self.mk(self.items[:-len(p)]) if p and self.endswith(p) else self

    def translate(self, *a): raise Unsupported("translate")
    def __lt__(self, o): raise Unsupported("ordering of symbolic text")
    __gt__ = __le__ = __ge__ = __lt__
    def __repr__(self): return "<%s %s>" % (type(self).__name__, "".join("?" if not isinstance(x, int) else chr(x) for x in self.items))
    def __str__(self): return repr(self)
    def __format__(self, s): return repr(self)


SPACES = set([9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0])


def seq_eq(a, b):
    if len(a) != len(b):
        ta = any(isinstance(x, Tok) for x in a) or any(isinstance(x, Tok) for x in b)
        if not ta: return False
        return tok_eq(a, b)
    if any(isinstance(x, Tok) for x in a) or any(isinstance(x, Tok) for x in b):
        return tok_eq(a, b)
    out = []
    for x, y in zip(a, b):
        c = x == y
        if c is False: return False
        out.append(c)
    return sand(*out)


def tok_eq(a, b):
    """texts with opaque parts: equal when piecewise the same; different when a piece cannot match"""
    if len(a) == len(b) and all(isinstance(x, Tok) == isinstance(y, Tok) for x, y in zip(a, b)):
        r = []
        for x, y in zip(a, b):
            if isinstance(x, Tok):
                c = x.eq(y)
                if c is False: raise_or_uneq(x, y)
            else: c = x == y
            if c is False: return False
            r.append(c)
        return sand(*r)
    # one side plain: does a character clash with the token's alphabet?
    for p, q in ((a, b), (b, a)):
        if not any(isinstance(x, Tok) for x in q):
            lits = [x for x in p if isinstance(x, int)]
            if any(isinstance(c, int) and all(chr(c) not in t.alphabet for t in p if isinstance(t, Tok)) and c not in lits and not any(isinstance(z, SInt) for z in p) for c in q):
                return False
            if not q: return False
            toks = [x for x in p if isinstance(x, Tok)]
            if len(p) == 1 and all(isinstance(c, int) for c in q):
                # a token against a literal
                t = p[0]
                if any(chr(c) not in t.alphabet for c in q): return False
                v = tok_value_eq(t, "".join(map(chr, q)))
                if v is not None: return v
    raise Unsupported("comparing opaque text")


def tok_value_eq(t, s):
    if t.kind in ("d", "") and t.args and isinstance(t.args[0], SInt):
        try: v = int(s)
        except ValueError: return False
        return t.args[0] == v if str(v) == s else False
    return None


def raise_or_uneq(x, y):
    return False


class SBytes(SSeq):
    __slots__ = ()
    nat = bytes
    @staticmethod
    def conv(o): return list(o)
    @staticmethod
    def native(items): return bytes(items)
    @staticmethod
    def elem(x): return x

    def decode(self, enc="utf-8", errors="strict"):
        for x in self.items:
            if isinstance(x, SInt) and x.hi > 127:
                if not bool(x < 128):
                    if errors == "ignore" : raise Unsupported("decode with ignore")
                    if enc.lower().replace("-", "").replace("_", "") in ("ascii", "usascii"): raise UnicodeDecodeError("ascii", b"\x80", 0, 1, "ordinal not in range(128)")
                    if enc.lower() in ("latin1", "latin-1", "iso-8859-1"): continue
                    raise Unsupported("decoding non-ASCII utf-8")
            elif isinstance(x, int) and x > 127 and enc.lower() not in ("latin1", "latin-1"):
                self_native = bytes([x])
                raise UnicodeDecodeError("ascii", self_native, 0, 1, "ordinal not in range(128)")
        return SStr([narrow(x, 0, 127) if isinstance(x, SInt) and enc.lower() not in ("latin1", "latin-1") else x for x in self.items]).fold()

    def hex(self, *a):
        if a: raise Unsupported("hex with separator")
        out = []
        for x in self.items:
            if isinstance(x, Tok): return SStr([Tok("hexof", (tuple(self.items),), "0123456789abcdef")])
            out += [nibble(x >> 4), nibble(x & 15)]
        return SStr(out).fold()


def narrow(x, lo, hi):
    return SInt(x.e, max(lo, x.lo), min(hi, x.hi))


class SStr(SSeq):
    __slots__ = ()
    nat = str
    @staticmethod
    def conv(o): return [ord(c) for c in o]
    @staticmethod
    def native(items): return "".join(map(chr, items))
    @staticmethod
    def elem(x): return chr(x) if isinstance(x, int) else SStr([x])

    def encode(self, enc="utf-8", errors="strict"):
        for x in self.items:
            if isinstance(x, SInt) and x.hi > 127 and not bool(x < 128):
                if enc.lower() == "ascii": raise UnicodeEncodeError("ascii", "\x80", 0, 1, "ordinal not in range(128)")
                raise Unsupported("encoding non-ASCII")
            if isinstance(x, int) and x > 127:
                return self_native_encode(self, enc, errors)
        return SBytes([narrow(x, 0, 127) if isinstance(x, SInt) else x for x in self.items]).fold()

    def format(self, *a, **k):
        raise Unsupported("symbolic format string")

    def isprintable(self): return self._all(lambda x: sand(x >= 32, x < 127))


def self_native_encode(s, enc, errors):
    if enc.lower() == "ascii": raise UnicodeEncodeError("ascii", "\x80", 0, 1, "ordinal not in range(128)")
    out = []
    for x in s.items:
        out += list(chr(x).encode(enc, errors)) if isinstance(x, int) else [x]
    return SBytes(out)


class SByteArray(Sym):
    """bytearray with symbolic content"""
    __slots__ = ("items",)
    def __init__(self, items=()): self.items = list(items)
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(list(self.items))
    def __getitem__(self, k):
        if isinstance(k, slice): return SByteArray(self.items[k])
        return self.items[concrete_int(k)]
    def __setitem__(self, k, v):
        if isinstance(k, slice): self.items[k] = list(v)
        else:
            if not (v >= 0) or not (v <= 255): raise ValueError("byte must be in range(0, 256)")
            self.items[concrete_int(k)] = v
    def __delitem__(self, k): del self.items[k]
    def append(self, v):
        if not (v >= 0) or not (v <= 255): raise ValueError("byte must be in range(0, 256)")
        self.items.append(v)
    def extend(self, v): self.items.extend(list(v))
    def __iadd__(self, v): self.items.extend(list(v)); return self
    def __add__(self, v): return SByteArray(self.items + list(v))
    def __radd__(self, v): return SBytes(list(v) + self.items)
    def __eq__(self, o): return SBytes(self.items) == (SBytes(o.items) if isinstance(o, SByteArray) else o)
    def __ne__(self, o): return snot(self == o)
    def __bool__(self): return bool(self.items)
    def __deepcopy__(self, m): return SByteArray(self.items)
    def __copy__(self): return SByteArray(self.items)
    def bytes(self): return SBytes(self.items).fold()
    def __getattr__(self, n): return getattr(SBytes(self.items), n)
    __hash__ = None


def nibble(v, upper=False):
    if isinstance(v, int): return ord(("%X" if upper else "%x") % v)
    a = 65 if upper else 97
    return mkint(z3.If(v.e < 10, v.e + 48, v.e + (a - 10)), 48, a + 5)


def lift(x, cls):
    if isinstance(x, cls): return x
    if cls is SStr and isinstance(x, str): return SStr([ord(c) for c in x])
    if cls is SBytes and isinstance(x, (bytes, bytearray)): return SBytes(list(x))
    if cls is SBytes and isinstance(x, SByteArray): return SBytes(x.items)
    return None


def pytype(x):
    if isinstance(x, SInt): return int
    if isinstance(x, SBool): return bool
    if isinstance(x, SFloat): return float
    if isinstance(x, SStr): return str
    if isinstance(x, SBytes): return bytes
    if isinstance(x, SByteArray): return bytearray
    if hasattr(type(x), "_sx_type"): return type(x)._sx_type
    return type(x)


def symbolic(x, depth=4):
    if isinstance(x, Sym): return True
    if depth == 0: return False
    if isinstance(x, (list, tuple, set, frozenset)): return any(symbolic(y, depth - 1) for y in x)
    if isinstance(x, dict): return any(symbolic(y, depth - 1) for y in x.values()) or any(isinstance(k, Sym) for k in x)
    return False


# --------------------------------------------------------------------------- parsing text into numbers
def digits_template(s, extra):
    """Classify the characters of a symbolic text: each symbolic character becomes a digit (kept symbolic) or one
    concrete character out of `extra`; None in the template stands for any other character."""
    tmpl, digs = [], []
    for x in s.items:
        if isinstance(x, int):
            tmpl.append(chr(x))
            continue
        if bool(sand(x >= 48, x <= 57)):
            tmpl.append("1"); digs.append((len(tmpl) - 1, x - 48)); continue
        for c in extra:
            if bool(x == ord(c)):
                tmpl.append(c); break
        else:
            tmpl.append("\x00")
            if x.hi > 127 and not bool(x < 128): raise Unsupported("non-ASCII character in a number")
    return "".join(tmpl), dict(digs)


def parse_int(s, base=10):
    if s.has_tok():
        if len(s.items) == 1:
            t = s.items[0]
            if t.kind in ("d", "") and isinstance(t.args[0], SInt): return t.args[0]
        raise Unsupported("int() of opaque text")
    if base == 16 or base == 0 or base == 2:
        return parse_int_base(s, base)
    t, d = digits_template(s, "+-_ \t\n\r")
    int(t)                                 # raises ValueError exactly when the real text would
    neg = "-" in t
    v = 0
    for k, c in enumerate(t):
        if c.isdigit(): v = v * 10 + d.get(k, int(c))
    return -v if neg else v


def parse_int_base(s, base):
    if base != 16: raise Unsupported("int() base")
    v = 0
    items = list(s.items)
    for x in items:
        n = hexval(x)
        if n is None: return int("z", 16)
        v = v * 16 + n
    if not items: return int("", 16)
    return v


def hexval(x):
    if isinstance(x, int):
        try: return int(chr(x), 16) if chr(x) in "0123456789abcdefABCDEF" else None
        except ValueError: return None
    if bool(sand(x >= 48, x <= 57)): return mkint(x.e - 48, 0, 9)
    if bool(sand(x >= 65, x <= 70)): return mkint(x.e - 55, 10, 15)
    if bool(sand(x >= 97, x <= 102)): return mkint(x.e - 87, 10, 15)
    return None


def parse_float(s):
    if s.has_tok():
        if len(s.items) == 1:
            t = s.items[0]
            f = _round_fn.setdefault("parse" + t.kind, z3.Function("parse_" + t.kind, F64, F64))
            a = to_float(t.args[0]) if t.args else None
            if a is not None: return SFloat(f(a.e), a.finite)
        raise Unsupported("float() of opaque text")
    t, d = digits_template(s, "+-.eE_ \t\nnNaAiIfFtTyY")
    f = float(t)
    if not d: return f
    body = t.strip().replace("_", "")
    idx = [k for k, c in enumerate(t)]
    mant, exp, seen_dot, e_part = 0, 0, False, False
    k = 0
    neg = t.strip().startswith("-")
    while k < len(t):
        c = t[k]
        if c in "eE": e_part = True; break
        if c == ".": seen_dot = True
        elif c.isdigit():
            mant = mant * 10 + d.get(k, int(c))
            exp += 1 if seen_dot else 0
        k += 1
    if e_part:
        ev, es = 0, False
        for j in range(k + 1, len(t)):
            if t[j] == "-": es = True
            elif t[j].isdigit(): ev = ev * 10 + d.get(j, int(t[j]))
        ev = concrete_int(ev)
        exp -= -ev if es else ev
    if isinstance(mant, int):
        return float("%s%de%d" % ("-" if neg else "", mant, -exp))
    if mant.hi > 1 << 53 or abs(exp) > 22: raise Unsupported("float text longer than 15 digits")
    m = to_float(mant)
    r = m / (10.0 ** exp) if exp > 0 else (m * (10.0 ** -exp) if exp < 0 else m)
    if isinstance(r, SFloat): r.finite = True
    return -r if neg else r


# --------------------------------------------------------------------------- formatting
def to_str(x):
    """str(x)"""
    if isinstance(x, SStr): return x
    if isinstance(x, SInt): return fmt(x, "")
    if isinstance(x, SFloat): return SStr([Tok("repr", (x,))])
    if isinstance(x, SBool): return "True" if bool(x) else "False"
    if isinstance(x, (SBytes, SByteArray)): return SStr([Tok("repr", (x,), PRINTABLE)])
    if hasattr(type(x), "_sx_str"): return x._sx_str()
    if symbolic(x): return SStr([Tok("repr", (freeze(x),), PRINTABLE)])
    return str(x)


PRINTABLE = "".join(map(chr, range(32, 127))) + "\n"


def freeze(x):
    return x


def fmt(x, spec):
    """format(x, spec) with a concrete spec"""
    if isinstance(spec, SStr): raise Unsupported("symbolic format spec")
    if hasattr(type(x), "_sx_format"): return x._sx_format(spec)
    if isinstance(x, SBool): x = x.int() if spec else to_str(x)
    if isinstance(x, SStr):
        if spec in ("", "s"): return x
        return SStr([Tok("fmt" + spec, (x,), PRINTABLE)])
    if isinstance(x, SInt):
        s = spec[:-1] if spec[-1:] in "dxXbc" and spec else spec
        t = spec[-1:] if spec[-1:] in "dxXbfc" and spec else "d"
        if t == "f": return SStr([Tok(spec, (to_float(x),))])
        if t == "d" and x.lo >= 0 and s[:1] == "0" and s[1:].isdigit() and x.hi < 10 ** int(s[1:]):
            return SStr(dec_digits(x, int(s[1:]))).fold()
        if t == "d" and x.lo >= 0 and s[:1] == "0" and s[1:].isdigit() and s[1:] != "" and ENG.must(x < 10 ** int(s[1:])):
            return SStr(dec_digits(narrow(x, 0, 10 ** int(s[1:]) - 1), int(s[1:]))).fold()
        if t == "d" and s == "" and 0 <= x.lo and x.hi <= 9: return SStr([x + 48]).fold()
        if t in "xX" and x.lo >= 0 and s[:1] == "0" and s[1:].isdigit() and x.hi < 16 ** int(s[1:]):
            n = int(s[1:])
            return SStr([nibble((x >> (4 * (n - 1 - k))) & 15, t == "X") for k in range(n)]).fold()
        if t == "d" and s == "":
            return SStr([Tok("d", (x,), "0123456789-")])
        if t in "xX" and x.lo >= 0 and s == "": return SStr([Tok("HEXMIN" if t == "X" else "hexmin", (x,), "0123456789ABCDEF" if t == "X" else "0123456789abcdef")])
        if t == "b" and x.lo >= 0 and s[:1] == "0" and s[1:].isdigit() and x.hi < 2 ** int(s[1:]):
            n = int(s[1:])
            return SStr([((x >> (n - 1 - k)) & 1) + 48 for k in range(n)]).fold()
        if t == "c": return SStr([x]).fold()
        return SStr([Tok(spec, (x,), "0123456789-+ abcdefABCDEFx,.%")])
    if isinstance(x, SFloat):
        return SStr([Tok(spec if spec else "repr", (x,), "0123456789+-.einfa ,")])
    if hasattr(type(x), "_sx_format"): return x._sx_format(spec)
    if symbolic(x): return to_str(x)
    return format(x, spec)


def dec_digits(x, n):
    out, v = [], x
    for _ in range(n):
        out.append((v % 10) + 48)
        v = v // 10
    return out[::-1]


def hex_min(x, upper):
    """hex digits without leading zeros: forks on the number of digits"""
    n = 1
    while not bool(x < 16 ** n): n += 1
    return [nibble((x >> (4 * (n - 1 - k))) & 15, upper) for k in range(n)]


def sstr_cat(parts):
    out, sym = [], False
    for p in parts:
        if isinstance(p, SStr): out += p.items; sym = True
        else: out += [ord(c) for c in p]
    return SStr(out).fold() if sym else "".join(parts)


import re as _re
_PCT = _re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])")


def pct_format(s, args):
    """str % args"""
    if not symbolic(args) and not hasattr(type(args), "_sx_type") and not (isinstance(args, tuple) and any(hasattr(type(a), "_sx_type") for a in args)):
        return s % args
    out, pos, k = [], 0, 0
    tup = args if isinstance(args, tuple) else (args,)
    for m in _PCT.finditer(s):
        out.append(s[pos:m.start()]); pos = m.end()
        if m.group(5) == "%": out.append("%"); continue
        if m.group(1): v = args[m.group(1)]
        else:
            if k >= len(tup): raise TypeError("not enough arguments for format string")
            v = tup[k]; k += 1
        c = m.group(5)
        if not symbolic(v) and not hasattr(type(v), "_sx_type"):
            out.append(m.group(0).replace("(%s)" % m.group(1), "") % (v,)); continue
        if c in "sr": out.append(to_str(v)); continue
        if c in "di":
            if isinstance(v, SFloat): v = v.to_int()
            if not isinstance(v, (SInt, SBool, int)): raise TypeError("%d format: a real number is required, not " + pytype(v).__name__)
            out.append(fmt(v, (m.group(2) or "") + (m.group(3) or ""))); continue
        if c in "xX":
            out.append(fmt(v, (m.group(2) or "") + (m.group(3) or "") + c)); continue
        if c in "feEgG":
            if not isinstance(v, (SInt, SFloat, SBool)): raise TypeError("must be real number, not " + pytype(v).__name__)
            out.append(fmt(to_float(v), (m.group(2) or "") + (m.group(3) or "") + ("." + m.group(4) if m.group(4) else "") + c)); continue
        raise Unsupported("%" + c)
    if k < len(tup) and not isinstance(args, dict): raise TypeError("not all arguments converted during string formatting")
    out.append(s[pos:])
    return sstr_cat(out)


import string as _string


def str_format(s, args, kw):
    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        out.append(lit)
        if field is None: continue
        if field == "": field = str(auto); auto += 1
        first = _re.match(r"^(\w*)(.*)$", field)
        v = args[int(first.group(1))] if first.group(1).isdigit() else kw[first.group(1)]
        if first.group(2): raise Unsupported("format field access")
        v = to_str(v) if conv in ("s", "r") else v
        out.append(fmt(v, spec) if symbolic(v) or spec else to_str(v))
    return sstr_cat(out)


# --------------------------------------------------------------------------- struct, binascii, codecs
import struct as _struct
_SZ = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False),
       "q": (8, True), "Q": (8, False), "?": (1, False), "c": (1, None), "f": (4, None), "d": (8, None), "s": None, "x": None, "e": (2, None), "p": None}


def _fmt_items(f):
    if isinstance(f, bytes): f = f.decode()
    order = "@"
    if f and f[0] in "<>!=@": order, f = f[0], f[1:]
    out = []
    for n, c in _re.findall(r"(\d*)([a-zA-Z?])", f.replace(" ", "")):
        if c == "s": out.append(("s", int(n) if n else 1))
        elif c == "x": out.append(("x", int(n) if n else 1))
        else:
            out += [(c, 1)] * (int(n) if n else 1)
    return order, out


def struct_unpack(f, data):
    d = lift(data, SBytes)
    if d is None: raise TypeError("a bytes-like object is required, not '%s'" % pytype(data).__name__)
    if isinstance(f, SStr): raise Unsupported("symbolic struct format")
    if d.is_concrete(): return _struct.unpack(f, bytes(d.items))
    n = _struct.calcsize(f)
    if len(d) != n: raise _struct.error("unpack requires a buffer of %d bytes" % n)
    order, items = _fmt_items(f)
    if order == "@":
        if any(_SZ.get(c) and _SZ[c][0] > 1 for c, _ in items): raise Unsupported("native struct alignment")
    big = order in ">!"
    pos, out = 0, []
    for c, k in items:
        if c == "x": pos += k; continue
        if c == "s": out.append(SBytes(d.items[pos:pos + k]).fold()); pos += k; continue
        sz, signed = _SZ[c]
        b = d.items[pos:pos + sz]; pos += sz
        if all(isinstance(x, int) for x in b):
            out.append(_struct.unpack(("<" if not big else ">") + c, bytes(b))[0]); continue
        if big: b = b[::-1]
        parts = [z3.Extract(7, 0, x.e) if isinstance(x, SInt) else z3.BitVecVal(x, 8) for x in b]
        e = z3.simplify(z3.Concat(*parts[::-1]) if sz > 1 else parts[0])
        if c == "f": out.append(SFloat(z3.fpFPToFP(RNE, z3.fpBVToFP(e, z3.Float32()), F64)))
        elif c == "d": out.append(SFloat(z3.fpBVToFP(e, F64)))
        elif c == "c": out.append(SBytes(b))
        elif c == "?": out.append(mkb(e != 0))
        elif c == "e": raise Unsupported("half floats")
        else:
            if sz == 8 and not signed: raise Unsupported("unsigned 64 bit field")
            if sz == 8: raise Unsupported("64 bit field")
            w = sz * 8
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            out.append(mkint(z3.SignExt(W - w, e) if signed else z3.ZeroExt(W - w, e), lo, hi))
    return tuple(out)


def struct_pack(f, *args):
    order, items = _fmt_items(f)
    if not symbolic(args): return _struct.pack(f, *args)
    if order == "@" and any(_SZ.get(c) and _SZ[c][0] > 1 for c, _ in items): raise Unsupported("native struct alignment")
    big = order in ">!"
    out, k = [], 0
    need = sum(1 for c, _ in items if c != "x")
    if need != len(args): raise _struct.error("pack expected %d items for packing (got %d)" % (need, len(args)))
    for c, n in items:
        if c == "x": out += [0] * n; continue
        v = args[k]; k += 1
        if c == "s":
            b = lift(v, SBytes)
            if b is None: raise _struct.error("argument for 's' must be a bytes object")
            out += (b.items + [0] * n)[:n]; continue
        sz, signed = _SZ[c]
        if not symbolic(v):
            out += list(_struct.pack(("<" if not big else ">") + c, v)); continue
        if c in "fd":
            x = to_float(v)
            if x is None: raise _struct.error("required argument is not a float")
            if c == "f":
                y = z3.fpFPToFP(RNE, x.e, z3.Float32())
                if mkbool(z3.And(z3.fpIsInf(y), z3.Not(z3.fpIsInf(x.e)))): raise OverflowError("float too large to pack with f format")
            else: y = x.e
            e = z3.fpToIEEEBV(y)
        elif c in "?": e = z3.If(to_bool(v if isinstance(v, SBool) else v != 0), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        elif c == "c":
            out += lift(v, SBytes).items; continue
        else:
            if isinstance(v, SBool): v = v.int()
            if not isinstance(v, (SInt, int)): raise _struct.error("required argument is not an integer")
            w = sz * 8
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            if not (v >= lo) or not (v <= hi): raise _struct.error("argument out of range")
            e = z3.Extract(w - 1, 0, v.e)
        b = [mkint(z3.ZeroExt(W - 8, z3.Extract(8 * i + 7, 8 * i, e) if sz > 1 else e), 0, 255) for i in range(sz)]
        out += b[::-1] if big else b
    return SBytes(out).fold()


def crc_hqx(data, crc):
    d = lift(data, SBytes)
    if d is None: raise TypeError("a bytes-like object is required, not '%s'" % pytype(data).__name__)
    if d.has_tok():
        # opaque text: the checksum is an uninterpreted 16 bit function of it
        return Opaque16.get(d.items, crc)
    if d.is_concrete() and isinstance(crc, int):
        import binascii
        return binascii.crc_hqx(bytes(d.items), crc)
    c = z3.simplify(z3.Extract(15, 0, norm(crc)[0]))
    for b in d.items:
        x = z3.simplify(z3.Extract(7, 0, norm(b)[0]))
        if z3.is_bv_value(c) and z3.is_bv_value(x):
            import binascii
            c = z3.BitVecVal(binascii.crc_hqx(bytes([x.as_long()]), c.as_long()), 16)
            continue
        key = (c.get_id(), x.get_id())
        if key in ENG.crc_memo:
            c = ENG.crc_memo[key][0]
            continue
        n = c ^ z3.Concat(x, z3.BitVecVal(0, 8))
        # eight steps of poly 0x1021 on the top byte, in closed form
        t = z3.Extract(15, 8, n)
        t = t ^ z3.LShR(t, 4)
        t16 = z3.ZeroExt(8, t)
        n = (n << 8) ^ (t16 << 12) ^ (t16 << 5) ^ t16
        v = z3.BitVec(ENG.name("crcstate"), 16)     # a name for each state keeps the terms small
        ENG.define(v, n)
        ENG.crc_memo[key] = (v, c, x)
        c = v
    return mkint(z3.ZeroExt(W - 16, c), 0, 0xFFFF)


class Opaque16:
    """checksums of opaque texts: equal texts get the same variable"""
    table = []

    @classmethod
    def get(cls, items, crc):
        cond = []
        for it, c0, v in cls.table:
            if c0 == crc and len(it) == len(items) and all((isinstance(x, Tok) == isinstance(y, Tok)) for x, y in zip(it, items)):
                try: r = tok_eq(it, items)
                except Unsupported: r = False
                if r is True: return v
                if r is not False: cond.append((r, v))
        v = SInt(z3.BitVec(ENG.name("crc"), W), 0, 0xFFFF)
        ENG.assume(SBool(z3.And(v.e >= 0, v.e <= 0xFFFF)))
        for r, w in cond:           # equal texts have equal checksums
            ENG.assume(SBool(z3.Implies(r.e, v.e == w.e)))
        cls.table.append((list(items), crc, v))
        return v


def unhex(s):
    import binascii
    t = lift(s, SStr) or lift(s, SBytes)
    if t is None: raise TypeError("decoding with 'hex' codec failed")
    if len(t) % 2: raise binascii.Error("Odd-length string")
    out = []
    for k in range(0, len(t), 2):
        a = hexval(t.items[k])
        b = hexval(t.items[k + 1]) if a is not None else None
        if a is None or b is None: raise binascii.Error("Non-hexadecimal digit found")
        out.append(a * 16 + b)
    return SBytes(out).fold()


def enhex(d, upper=False):
    d = lift(d, SBytes)
    out = []
    for x in d.items: out += [nibble(x >> 4, upper), nibble(x & 15, upper)]
    return SBytes(out).fold()
