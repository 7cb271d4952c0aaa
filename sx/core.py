"""Symbolic values and the path explorer.

The code under test runs in CPython on proxy values; every branch on a proxy is decided here:
first against the per-character domains (exact for unary constraints), otherwise by Z3.
Exploration is depth-first by re-execution with a recorded prefix of decisions.
"""
from __future__ import annotations

import os
import time
from fractions import Fraction

import z3

U = Fraction(1, 2 ** 53)  # unit roundoff of binary64
ALL = (1 << 128) - 1


class Control(BaseException):
    """Engine control flow; never caught by code under test."""


class PathEnd(Control):
    pass


class Budget(Control):
    pass


class Unsupported(Control):
    """Something the encoding cannot express: the path is inconclusive."""


def mask_of(chars):
    m = 0
    for c in chars:
        m |= 1 << ord(c)
    return m


DIGITS = mask_of("0123456789")
_rng_cache = {}


def mask_ranges(m):
    r = _rng_cache.get(m)
    if r is None:
        r, i, mm = [], 0, m
        while mm >> i:
            if mm >> i & 1:
                j = i
                while mm >> (j + 1) & 1:
                    j += 1
                r.append((i, j))
                i = j + 1
            else:
                i += 1
        _rng_cache[m] = r
    return r


_me_cache = {}


_ctx = z3.main_ctx()
_ref = _ctx.ref()


def z_and(xs):
    n = len(xs)
    if n == 1:
        return xs[0]
    return z3.BoolRef(z3.Z3_mk_and(_ref, n, (z3.Ast * n)(*[x.ast for x in xs])), _ctx)


def z_or(xs):
    n = len(xs)
    if n == 1:
        return xs[0]
    return z3.BoolRef(z3.Z3_mk_or(_ref, n, (z3.Ast * n)(*[x.ast for x in xs])), _ctx)


def z_not(x):
    return z3.BoolRef(z3.Z3_mk_not(_ref, x.ast), _ctx)


def char_expr(ch, m):
    """mask_expr for the character, cached for input characters."""
    if not ch.free:
        return mask_expr(ch.expr, m)
    k = (ch.key, m)
    r = _me_cache.get(k)
    if r is None:
        if len(_me_cache) > 200000:
            _me_cache.clear()
        r = _me_cache[k] = mask_expr(ch.expr, m)
    return r


def mask_expr(e, m):
    parts = []
    for a, b in mask_ranges(m):
        parts.append(e == a if a == b else z3.And(e >= a, e <= b))
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(parts)


def mask_chars(m):
    return [chr(i) for a, b in mask_ranges(m) for i in range(a, b + 1)]


class SymChar:
    __slots__ = ("expr", "dom", "key", "free", "deps")

    def __init__(self, expr, dom, key, free, deps=None):
        self.expr, self.dom, self.key, self.free = expr, dom, key, free
        self.deps = deps if deps is not None else frozenset((key,))

    def __repr__(self):
        return "<%s>" % (self.key,)


# --------------------------------------------------------------------------- engine
class Stats:
    FIELDS = ("paths", "branches", "forks", "queries", "proved", "trivial", "replays", "realized",
              "unknown", "ended")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.incomplete = []

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["incomplete"] = self.incomplete
        return d


FORKS = {} if os.environ.get("SX_FORKS") else None


class Engine:
    """One engine explores one case (a harness with fixed parameters)."""

    cur = None
    max_steps = 400000

    def __init__(self, timeout_ms=20000, realize_cap=400):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.stats = Stats()
        self.realize_cap = realize_cap
        self.work = [[]]
        self.names = {}

    # -- path life cycle
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.dom = {}
        self.tainted = set()
        self.pc_n = 0
        self.inputs = {}
        self.cache = {}
        self.now = None
        self.offset = 0
        self.printed = []
        self.fresh = 0
        self.live = set()
        self.steps = 0
        self.dirty = {}
        self.pend = []
        self.solver.push()
        Engine.cur = self

    def end(self):
        self.solver.pop()
        Engine.cur = None

    # -- inputs
    def char(self, name, dom):
        c = self.names.get(name)
        if c is None or c.dom != dom:
            c = self.names[name] = SymChar(z3.Int(name), dom, name, True)
        self.dirty[name] = c
        return c

    def domof(self, ch):
        return self.dom.get(ch.key, ch.dom)

    # -- solver
    def flush(self):
        """Assert what has been decided since the last query."""
        if self.dirty:
            for ch in self.dirty.values():
                self.solver.add(char_expr(ch, self.domof(ch)))
            self.dirty = {}
        if self.pend:
            self.solver.add(*self.pend)
            self.pend = []

    def _check(self, *extra):
        self.flush()
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def sat(self, e):
        return self._check(e) != z3.unsat

    # -- decisions
    def _free(self, ch):
        return ch.free and ch.key not in self.tainted

    def branch(self, sb):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step limit")
        u = sb.unary
        open_u = None
        if u is not None:
            open_u = []
            for ch, m in u:
                d = self.domof(ch)
                i = d & m
                if i == 0:
                    return False
                if i != d:
                    open_u.append((ch, i))
            if not open_u:
                return True
        self.stats.branches += 1
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(val)
            self._commit(sb, open_u, val)
            return val
        if open_u is not None and len({c.key for c, _ in open_u}) == len(open_u) and all(
            self._free(ch) for ch, _ in open_u
        ):
            t_ok = f_ok = True
        else:
            t_ok = self.sat(sb.expr)
            f_ok = self.sat(z_not(sb.expr)) if t_ok else True
        val = bool(t_ok)
        if t_ok and f_ok:
            self.stats.forks += 1
            if FORKS is not None:
                import traceback
                k = " < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in reversed(traceback.extract_stack(limit=14)[:-1])
                               if not f.filename.endswith("shims.py"))[:260]
                FORKS[k] = FORKS.get(k, 0) + 1
            self.work.append(self.trace + [False])
        self.pos += 1
        self.trace.append(val)
        self.prefix = self.trace
        self._commit(sb, open_u, val)
        return val

    def _commit(self, sb, open_u, val):
        if open_u is not None:
            if val:
                for ch, i in open_u:
                    self.dom[ch.key] = self.domof(ch) & i
                    self.dirty[ch.key] = ch
                    if not ch.free:
                        self.tainted |= ch.deps
                return
            if len(open_u) == 1:
                ch, i = open_u[0]
                self.dom[ch.key] = self.domof(ch) & ~i
                self.dirty[ch.key] = ch
                if not ch.free:
                    self.tainted |= ch.deps
                return
        self.pend.append(sb.expr if val else z_not(sb.expr))
        self.tainted |= sb.deps

    def pick(self, n):
        """Non-deterministic choice of 0..n-1 (a multiway fork)."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            val = 0
            for k in range(n - 1, 0, -1):
                self.work.append(self.trace + [k])
            self.stats.forks += n - 1
        self.pos += 1
        self.trace.append(val)
        if self.pos > len(self.prefix):
            self.prefix = self.trace
        return val

    def realize_int(self, si, what="int"):
        """Fork over the values of an integer term (complete up to the cap)."""
        if isinstance(si, int):
            return si
        if si.lo == si.hi:
            return si.lo
        self.stats.realized += 1
        k = 0
        while True:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
            else:
                if self._check() != z3.sat:
                    raise Unsupported("no model while enumerating")
                v = self.solver.model().eval(si.expr, model_completion=True).as_long()
            self.pos += 1
            self.trace.append(v)
            if self.pos > len(self.prefix):
                self.prefix = self.trace
            k += 1
            if k > self.realize_cap:
                self.stats.incomplete.append("enumeration of %s cut at %d values" % (what, k))
                self.solver.add(si.expr == v)
                self.tainted |= si.deps
                return v
            if self.branch(SymBool(si.expr == v, deps=si.deps)):
                return v

    def realize_char(self, ch):
        d = self.domof(ch)
        if d & (d - 1) == 0:
            return chr(d.bit_length() - 1)
        v = self.realize_int(SymInt(ch.expr, 0, 127, ch.deps), "character")
        self.dom[ch.key] = 1 << v
        return chr(v)

    def assume(self, cond):
        if isinstance(cond, SymBool):
            u = cond.unary
            if u is not None and any(self.domof(c) & m == 0 for c, m in u):
                raise PathEnd()
            # forced: no fork
            if self.pos >= len(self.prefix):
                if not self.sat(cond.expr):
                    raise PathEnd()
            self._commit(cond, [(c, self.domof(c) & m) for c, m in u] if u else None, True)
        elif not cond:
            raise PathEnd()

    def prove(self, cond):
        """True if cond holds for every input of this path; else a z3 model."""
        if not isinstance(cond, SymBool):
            if cond:
                self.stats.trivial += 1
                return True
            if self._check() != z3.sat:
                return None
            return self.solver.model()
        r = self._check(z_not(cond.expr))
        if r == z3.unsat:
            self.stats.proved += 1
            return True
        if r == z3.sat:
            return self.solver.model()
        return None

    def model(self, rnd=None):
        """A model of the path condition, with free characters picked at random."""
        extra = []
        if rnd is not None:
            for name, c in self.names.items():
                if name in self.live and c.key not in self.tainted:
                    extra.append(c.expr == ord(rnd.choice(mask_chars(self.domof(c)))))
        r = self._check(*extra)
        if r != z3.sat and extra:
            r = self._check()
        if r != z3.sat:
            return None
        return self.solver.model()


def E():
    return Engine.cur


# --------------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("_e", "unary", "deps", "build")

    def __init__(self, expr, unary=None, deps=None, build=None):
        self._e = expr
        self.build = build
        self.unary = unary
        if deps is None:
            deps = frozenset()
            for ch, _ in unary or ():
                deps |= ch.deps
        self.deps = deps

    @property
    def expr(self):
        e = self._e
        if e is None:
            if self.build is not None:
                e = self.build()
                self.build = None
            else:
                ex = [char_expr(ch, m) for ch, m in self.unary]
                e = z_and(ex)
            self._e = e
        return e

    def __bool__(self):
        return Engine.cur.branch(self)

    def __invert__(self):
        u = None
        if self.unary is not None and len(self.unary) == 1:
            ch, m = self.unary[0]
            u = ((ch, ALL & ~m),)
        return SymBool(None, u, self.deps, lambda: z_not(self.expr))

    def __and__(self, o):
        return b_and([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return b_or([self, o])

    __ror__ = __or__

    def __xor__(self, o):
        o = o if isinstance(o, SymBool) else SymBool(z3.BoolVal(bool(o)))
        return SymBool(z3.Xor(self.expr, o.expr), deps=self.deps | o.deps)

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.expr == o.expr, deps=self.deps | o.deps)
        if o is True or (type(o) in (int, float) and o == 1):
            return self
        if o is False or (type(o) in (int, float) and o == 0):
            return ~self
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return b_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _i(self):
        return SymInt(z3.If(self.expr, 1, 0), 0, 1, self.deps)

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))


def mk_unary(pairs):
    """Conjunction of (char in mask), simplified against the current domains."""
    e = Engine.cur
    out = {}
    for ch, m in pairs:
        d = e.domof(ch)
        if ch.key in out:
            d = d & out[ch.key][1]
        i = d & m
        if i == 0:
            return False
        if i != e.domof(ch):
            out[ch.key] = (ch, i)
    if not out:
        return True
    u = tuple(out.values())
    return SymBool(None, u)


def b_and(items):
    ex, un, deps, allu = [], [], frozenset(), True
    for x in items:
        if isinstance(x, SymBool):
            ex.append(x)
            deps |= x.deps
            if x.unary is None:
                allu = False
            else:
                un.extend(x.unary)
        elif not x:
            return False
    if not ex:
        return True
    if allu:
        r = mk_unary(un)
        return r
    if len(ex) == 1:
        return ex[0]
    return SymBool(None, None, deps, lambda: z_and([x.expr for x in ex]))


def b_or(items):
    ex, deps, un = [], frozenset(), []
    for x in items:
        if isinstance(x, SymBool):
            ex.append(x)
            deps |= x.deps
            un.append(x.unary)
        elif x:
            return True
    if not ex:
        return False
    if all(u is not None and len(u) == 1 and u[0][0].key == un[0][0][0].key for u in un):
        m = 0
        for u in un:
            m |= u[0][1]
        return mk_unary([(un[0][0][0], m)])
    if len(ex) == 1:
        return ex[0]
    return SymBool(None, None, deps, lambda: z_or([x.expr for x in ex]))


def b_not(x):
    return ~x if isinstance(x, SymBool) else (not x)


# --------------------------------------------------------------------------- integers
def _divmod_bounds(lo, hi, k):
    return lo // k, hi // k


class SymInt:
    __slots__ = ("expr", "lo", "hi", "deps", "digits")

    def __init__(self, expr, lo, hi, deps, digits=None):
        self.expr, self.lo, self.hi, self.deps, self.digits = expr, lo, hi, deps, digits

    def __repr__(self):
        return "SymInt(%s)" % (z3.simplify(self.expr),)

    def __hash__(self):
        return hash(Engine.cur.realize_int(self, "hash"))

    def __index__(self):
        return Engine.cur.realize_int(self, "index")

    __int__ = __index__
    fix = __index__

    def __float__(self):
        return float(Engine.cur.realize_int(self, "float"))

    def __bool__(self):
        return bool(self != 0)

    def _co(self, o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            return o._i()
        if isinstance(o, int):
            return SymInt(z3.IntVal(int(o)), int(o), int(o), frozenset())
        return None

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        c = self._co(o)
        if c is None:
            if isinstance(o, float):
                return SymFloat.of(self) + o
            if isinstance(o, Fraction):
                return SymReal.co(self) + o
            return NotImplemented
        return simp(SymInt(self.expr + c.expr, self.lo + c.lo, self.hi + c.hi, self.deps | c.deps))

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int and o == 0:
            return self
        c = self._co(o)
        if c is None:
            if isinstance(o, float):
                return SymFloat.of(self) - o
            if isinstance(o, Fraction):
                return SymReal.co(self) - o
            return NotImplemented
        return simp(SymInt(self.expr - c.expr, self.lo - c.hi, self.hi - c.lo, self.deps | c.deps))

    def __rsub__(self, o):
        c = self._co(o)
        if c is None:
            if isinstance(o, float):
                return o - SymFloat.of(self)
            if isinstance(o, Fraction):
                return SymReal.co(o) - SymReal.co(self)
            return NotImplemented
        return c - self

    def __neg__(self):
        return SymInt(-self.expr, -self.hi, -self.lo, self.deps)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return self if self >= 0 else -self

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * self.__index__()
        if isinstance(o, float):
            return SymFloat.of(self) * o
        if isinstance(o, Fraction):
            return SymReal(z3.ToReal(self.expr)) * o
        c = self._co(o)
        if c is None:
            import datetime
            if isinstance(o, datetime.timedelta):
                from . import dt
                return dt.mktd(self * (o.days * 86400 + o.seconds))
            return NotImplemented
        if isinstance(o, SymInt):
            if min(self.hi - self.lo, o.hi - o.lo) <= 64:
                a, b = (self, o) if self.hi - self.lo <= o.hi - o.lo else (o, self)
                return b * Engine.cur.realize_int(a, "product")
        ps = [self.lo * c.lo, self.lo * c.hi, self.hi * c.lo, self.hi * c.hi]
        return simp(SymInt(self.expr * c.expr, min(ps), max(ps), self.deps | c.deps))

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, float):
            return SymFloat.of(self) // o
        if isinstance(o, SymInt):
            o = Engine.cur.realize_int(o, "divisor")
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if o < 0:
            return (-self) // (-o)
        if o == 1:
            return self
        return simp(SymInt(self.expr / o, self.lo // o, self.hi // o, self.deps))

    def __mod__(self, o):
        if isinstance(o, SymInt):
            o = Engine.cur.realize_int(o, "modulus")
        if isinstance(o, float):
            return Engine.cur.realize_int(self, "float mod") % o
        if not isinstance(o, int):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("integer modulo by zero")
        if o < 0:
            return -((-self) % (-o))
        if self.lo >= 0 and self.hi < o:
            return self
        return SymInt(self.expr % o, 0, o - 1, self.deps)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // Engine.cur.realize_int(self, "divisor")

    def __rmod__(self, o):
        return o % Engine.cur.realize_int(self, "modulus")

    def __truediv__(self, o):
        if isinstance(o, Fraction):
            return SymReal.co(self) / o
        if isinstance(o, SymInt):
            o = Engine.cur.realize_int(o, "divisor")
        return SymFloat.of(self, "int") / o

    def __rtruediv__(self, o):
        return o / Engine.cur.realize_int(self, "divisor")

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 2:
            return 1 if o == 0 else self if o == 1 else self * self
        return Engine.cur.realize_int(self, "pow") ** o

    def __rpow__(self, o):
        return o ** Engine.cur.realize_int(self, "pow")

    def _bit(self, name, o):
        a = Engine.cur.realize_int(self, "bit operation")
        b = Engine.cur.realize_int(o, "bit operation") if isinstance(o, SymInt) else o
        return getattr(a, name)(b)

    def __and__(self, o):
        return self._bit("__and__", o)

    def __or__(self, o):
        return self._bit("__or__", o)

    def __lshift__(self, o):
        return self * (1 << o) if type(o) is int else self._bit("__lshift__", o)

    def __rshift__(self, o):
        return self // (1 << o) if type(o) is int else self._bit("__rshift__", o)

    def __round__(self, nd=None):
        if nd is None or nd >= 0:
            return self
        return round(Engine.cur.realize_int(self, "round"), nd)

    def _cmp(self, o, op, dec):
        if isinstance(o, float):
            return SymFloat.of(self)._cmpc(o, op)
        if isinstance(o, SymFloat):
            return NotImplemented
        c = self._co(o)
        if c is None:
            return NotImplemented
        d = dec(self.lo, self.hi, c.lo, c.hi)
        if d is not None:
            return d
        if self.expr.eq(c.expr):
            return op in ("le", "ge", "eq")
        e = {
            "lt": lambda: self.expr < c.expr,
            "le": lambda: self.expr <= c.expr,
            "gt": lambda: self.expr > c.expr,
            "ge": lambda: self.expr >= c.expr,
            "eq": lambda: self.expr == c.expr,
            "ne": lambda: self.expr != c.expr,
        }[op]()
        return SymBool(e, None, self.deps | c.deps)

    def __lt__(self, o):
        return self._cmp(o, "lt", lambda a, b, c, d: True if b < c else False if a >= d else None)

    def __le__(self, o):
        return self._cmp(o, "le", lambda a, b, c, d: True if b <= c else False if a > d else None)

    def __gt__(self, o):
        return self._cmp(o, "gt", lambda a, b, c, d: True if a > d else False if b <= c else None)

    def __ge__(self, o):
        return self._cmp(o, "ge", lambda a, b, c, d: True if a >= d else False if b < c else None)

    def __eq__(self, o):
        r = self._cmp(o, "eq", lambda a, b, c, d: False if b < c or a > d else None)
        return False if r is NotImplemented and not isinstance(o, SymFloat) else r

    def __ne__(self, o):
        r = self._cmp(o, "ne", lambda a, b, c, d: True if b < c or a > d else None)
        return True if r is NotImplemented and not isinstance(o, SymFloat) else r

    def bit_length(self):
        return Engine.cur.realize_int(self, "bit_length").bit_length()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def simp(si):
    """Constant-fold an integer term."""
    if si.lo == si.hi:
        return si.lo
    return si


class SymReal:
    """Exact rational-valued term; only used on the specification side."""

    __slots__ = ("expr",)

    def __init__(self, expr):
        self.expr = expr

    @staticmethod
    def co(o):
        if isinstance(o, SymReal):
            return o
        if isinstance(o, SymInt):
            return SymReal(z3.ToReal(o.expr))
        if isinstance(o, (int, Fraction)):
            return SymReal(z3.RealVal(Fraction(o)))
        if isinstance(o, float):
            return SymReal(z3.RealVal(Fraction(o)))
        return None

    def __add__(self, o):
        return SymReal(self.expr + SymReal.co(o).expr)

    __radd__ = __add__

    def __sub__(self, o):
        return SymReal(self.expr - SymReal.co(o).expr)

    def __rsub__(self, o):
        return SymReal(SymReal.co(o).expr - self.expr)

    def __mul__(self, o):
        return SymReal(self.expr * SymReal.co(o).expr)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return SymReal(self.expr / SymReal.co(o).expr)

    def __neg__(self):
        return SymReal(-self.expr)


# --------------------------------------------------------------------------- floats
_OPS = {
    "mul": lambda c: lambda v: v * c, "div": lambda c: lambda v: v / c, "add": lambda c: lambda v: v + c,
    "sub": lambda c: lambda v: v - c, "neg": lambda c: lambda v: -v, "floordiv": lambda c: lambda v: v // c,
    "round": lambda c: lambda v: round(v) if c is None else round(v, c),
}
_OPS_MEMO = {}


def _op(name, c=None):
    """One function object per operation and constant, so that equal compositions compare equal."""
    k = (name, type(c), repr(c))
    f = _OPS_MEMO.get(k)
    if f is None:
        f = _OPS_MEMO[k] = _OPS[name](c)
    return f


class SymFloat:
    """f(n) for an integer term n and a monotone composition f of binary64 operations.

    Because correctly rounded multiplication/division/addition by a constant is monotone, every
    comparison with a constant is exactly a comparison of n with a threshold (found by bisection
    over the real operations). `lin` is a rational enclosure |f(n) - (A n + B)| <= err used for the
    tolerance obligations.
    """

    __slots__ = ("n", "ops", "dir", "lin", "kind", "_memo")

    def __init__(self, n, ops, dir, lin, kind="float"):
        self.n, self.ops, self.dir, self.lin, self.kind = n, ops, dir, lin, kind
        self._memo = {}

    @staticmethod
    def of(si, how="float"):
        if isinstance(si, SymBool):
            si = si._i()
        if abs(si.lo) > 2 ** 53 or abs(si.hi) > 2 ** 53:
            raise Unsupported("integer too large for exact float")
        ops = (float,) if how == "float" else (int,)
        return SymFloat(si, ops, 1, (Fraction(1), Fraction(0), Fraction(0)))

    def f(self, n):
        v = self._memo.get(n)
        if v is None:
            v = n
            for op in self.ops:
                v = op(v)
            self._memo[n] = v
        return v

    def ends(self):
        a, b = self.f(self.n.lo), self.f(self.n.hi)
        return (a, b) if a <= b else (b, a)

    def maxabs(self):
        a, b = self.ends()
        return max(abs(Fraction(a)), abs(Fraction(b)))

    def _mk(self, op, flip, lin, kind="float"):
        r = SymFloat(self.n, self.ops + (op,), -self.dir if flip else self.dir, lin, kind)
        if self.n.lo == self.n.hi:
            return r.f(self.n.lo)
        a, b = r.f(self.n.lo), r.f(self.n.hi)
        if a == b:
            return a  # monotone and equal ends: constant
        return r

    def realize(self):
        n = Engine.cur.realize_int(self.n, "float")
        return self.f(n)

    def _o(self, o):
        if isinstance(o, SymBool):
            return int(bool(o))
        if isinstance(o, SymInt):
            o = SymFloat.of(o)
        if isinstance(o, SymFloat):
            if o.n.hi - o.n.lo <= self.n.hi - self.n.lo and o.n.expr.get_id() != self.n.expr.get_id():
                return o.realize()
            return None
        if isinstance(o, (int, float)):
            return o
        return NotImplemented

    def _bin(self, o, op, refl=False):
        c = self._o(o)
        if c is NotImplemented:
            return c
        if c is None:  # the other operand has the larger domain (or shares the base)
            v = self.realize()
            if isinstance(o, SymFloat) and o.n.expr.get_id() == self.n.expr.get_id():
                o = o.realize()
            return op(o, v) if refl else op(v, o)
        return c

    def __mul__(self, o):
        c = self._bin(o, lambda a, b: a * b)
        if c is NotImplemented or isinstance(c, SymFloat) or not isinstance(o, (int, float)) and not isinstance(o, (SymInt, SymFloat, SymBool)):
            return c
        if isinstance(o, SymFloat) and self._o(o) is None:
            return c
        if c == 0:
            return self.realize() * c if self.ends()[0] < 0 else 0.0 * c
        A, B, err = self.lin
        fc = Fraction(c)
        e = err * abs(fc) + U * (self.maxabs() * abs(fc))
        return self._mk(_op("mul", c), c < 0, (A * fc, B * fc, e))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        c = self._bin(o, lambda a, b: a / b)
        if c is NotImplemented or isinstance(c, SymFloat) or (isinstance(o, SymFloat) and self._o(o) is None):
            return c
        if c == 0:
            raise ZeroDivisionError("float division by zero" if self.kind == "float" else "division by zero")
        A, B, err = self.lin
        fc = 1 / Fraction(c)
        e = err * abs(fc) + U * (self.maxabs() * abs(fc))
        return self._mk(_op("div", c), c < 0, (A * fc, B * fc, e))

    def __rtruediv__(self, o):
        return o / self.realize()

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return NotImplemented
        c = self._bin(o, lambda a, b: a + b)
        if c is NotImplemented or isinstance(c, SymFloat) or (isinstance(o, SymFloat) and self._o(o) is None):
            return c
        A, B, err = self.lin
        e = err + U * (self.maxabs() + abs(Fraction(c)))
        return self._mk(_op("add", c), False, (A, B + Fraction(c), e))

    __radd__ = __add__

    def __sub__(self, o):
        c = self._bin(o, lambda a, b: a - b)
        if c is NotImplemented or isinstance(c, SymFloat) or (isinstance(o, SymFloat) and self._o(o) is None):
            return c
        A, B, err = self.lin
        e = err + U * (self.maxabs() + abs(Fraction(c)))
        return self._mk(_op("sub", c), False, (A, B - Fraction(c), e))

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        A, B, err = self.lin
        return self._mk(_op("neg"), True, (-A, -B, err), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.ends()[0] >= 0:
            return self
        if self.ends()[1] <= 0:
            return -self
        return self if self >= 0 else -self

    def __floordiv__(self, o):
        if isinstance(o, (int, float)) and o != 0:
            A, B, err = self.lin
            fc = 1 / Fraction(o)
            return self._mk(_op("floordiv", o), o < 0, (A * fc, B * fc, err * abs(fc) + 2))
        return self.realize() // o

    def __mod__(self, o):
        return self.realize() % o

    def __divmod__(self, o):
        return divmod(self.realize(), o)

    def __pow__(self, o):
        return self.realize() ** o

    def __rpow__(self, o):
        return o ** self.realize()

    def __round__(self, nd=None):
        A, B, err = self.lin
        e = err + (Fraction(1, 2) if nd is None else Fraction(1, 2) * Fraction(10) ** (-nd)) + U * (self.maxabs() + 1)
        return self._mk(_op("round", nd), False, (A, B, e),
                        "int" if nd is None else self.kind)

    def __trunc__(self):
        A, B, err = self.lin
        return self._mk(int, False, (A, B, err + 1), "int")

    def __floor__(self):
        import math
        A, B, err = self.lin
        return self._mk(math.floor, False, (A, B, err + 1), "int")

    def __ceil__(self):
        import math
        A, B, err = self.lin
        return self._mk(math.ceil, False, (A, B, err + 1), "int")

    def __int__(self):
        return int(self.realize())

    def __index__(self):
        v = self.realize()
        return v.__index__()

    def __float__(self):
        return float(self.realize())

    def __hash__(self):
        return hash(self.realize())

    def is_integer(self):
        return self.realize().is_integer()

    def _first(self, pred):
        """Least n in [lo, hi+1] with pred(f(n)), pred monotone false->true along n."""
        lo, hi = self.n.lo, self.n.hi + 1
        while lo < hi:
            mid = (lo + hi) // 2
            if pred(self.f(mid)):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def _ge(self, c):
        """f(n) >= c as a condition on n."""
        if self.dir > 0:
            return self.n >= self._first(lambda v: v >= c)
        return self.n < self._first(lambda v: v < c)

    def _gt(self, c):
        if self.dir > 0:
            return self.n >= self._first(lambda v: v > c)
        return self.n < self._first(lambda v: v <= c)

    def _cmpc(self, c, op):
        if c != c:
            return op == "ne"
        if op == "ge":
            return self._ge(c)
        if op == "gt":
            return self._gt(c)
        if op == "lt":
            return b_not(self._ge(c))
        if op == "le":
            return b_not(self._gt(c))
        eq = b_and([self._ge(c), b_not(self._gt(c))])
        return eq if op == "eq" else b_not(eq)

    def _cmp(self, o, op):
        if isinstance(o, (int, float)):
            return self._cmpc(o, op)
        if isinstance(o, (SymInt, SymFloat)):
            if isinstance(o, SymInt):
                o = SymFloat.of(o)
            if o.n.expr.get_id() == self.n.expr.get_id() and o.ops == self.ops:
                return op in ("le", "ge", "eq")
            a, b = self.ends(), o.ends()
            if a[1] < b[0]:
                return op in ("lt", "le", "ne")
            if a[0] > b[1]:
                return op in ("gt", "ge", "ne")
            if o.n.expr.get_id() == self.n.expr.get_id():
                return {"lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y,
                        "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y, "ne": lambda x, y: x != y}[op](
                    self.realize(), o.realize())
            if o.n.hi - o.n.lo <= self.n.hi - self.n.lo:
                return self._cmpc(o.realize(), op)
            flip = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}
            return o._cmpc(self.realize(), flip[op])
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self._cmpc(0, "ne"))

    def __repr__(self):
        return "SymFloat(%s)" % (self.n,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Fmt:
    """Text of a symbolic float under a format specification (an atom of unknown length)."""

    __slots__ = ("x", "spec")
    MASK = mask_of("0123456789.-+einfa, ")

    def __init__(self, x, spec):
        self.x, self.spec = x, spec

    def at(self, n):
        v = self.x.f(n)
        return repr(v) if self.spec is None else format(v, self.spec)

    def realize(self):
        return self.at(Engine.cur.realize_int(self.x.n, "formatted float"))

    def text_mask(self):
        m = mask_of("0123456789.-+einfa")
        if self.spec and self.spec[0] == "." and self.spec[-1] == "f":
            return mask_of("0123456789.-")
        if self.spec:
            if "," in self.spec:
                m |= mask_of(",")
            if self.spec[:1] not in (".", "") and any(c.isdigit() for c in self.spec.split(".")[0]):
                m |= mask_of(" ")
            if "%" in self.spec:
                m |= mask_of("%")
            if "g" in self.spec.lower() or "e" in self.spec.lower():
                m |= mask_of("eEgG")
        return m

    def eq(self, o):
        return (self.spec == o.spec and self.x.n.expr.get_id() == o.x.n.expr.get_id()
                and self.x.ops == o.x.ops)


# strings live in sstr.py, which installs the real class here
class SymStr:
    pass


SYM = (SymBool, SymInt, SymFloat)


def sym(x):
    return isinstance(x, SYM)
