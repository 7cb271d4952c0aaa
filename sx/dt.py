"""Symbolic datetime and timedelta (naive, proleptic Gregorian, whole seconds)."""
from __future__ import annotations

import datetime as _dt
import re as _re

import z3

from . import core
from .core import Engine, SymBool, SymInt, Unsupported, b_and, b_not, b_or
from .sstr import SymStr, fixed_digits, fmt_value, mk, parse_int

LONG = (1, 3, 5, 7, 8, 10, 12)
CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def leap(y):
    """Condition: y is a leap year."""
    if isinstance(y, int):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return b_or([b_and([y % 4 == 0, y % 100 != 0]), y % 400 == 0])


def ite(c, a, b):
    """a if c else b, for integers, without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    A, B = SymInt._co(None, a), SymInt._co(None, b)
    return SymInt(z3.If(c.expr, A.expr, B.expr), min(A.lo, B.lo), max(A.hi, B.hi), c.deps | A.deps | B.deps)


def dim(y, m):
    """Days in a month."""
    feb = ite(leap(y), 29, 28) if not isinstance(m, int) or m == 2 else 28
    if isinstance(m, int):
        return feb if m == 2 else 31 if m in LONG else 30
    return ite(m == 2, feb, ite(b_or([m == k for k in LONG]), 31, 30))


def day_ok(y, m, d):
    """Condition: day d exists in month m of year y (d >= 1 assumed)."""
    if isinstance(m, int):
        if m == 2:
            return b_or([d <= 28, b_and([d <= 29, leap(y)])])
        return d <= (31 if m in LONG else 30)
    return b_or([
        d <= 28,
        b_and([d <= 30, m != 2]),
        b_and([d <= 31, b_or([m == k for k in LONG])]),
        b_and([d <= 29, leap(y)]),
    ])


def ordinal(y, m, d):
    lp = ite(b_and([m > 2, leap(y)]), 1, 0)
    cum = CUM[m] if isinstance(m, int) else 0
    if not isinstance(m, int):
        for k in range(2, 13):
            cum = ite(m >= k, CUM[k], 0) if k == 2 else ite(m >= k, CUM[k], cum)
    yy = y - 1
    return yy * 365 + yy // 4 - yy // 100 + yy // 400 + cum + lp + d


def is_sym(*xs):
    return any(isinstance(x, (SymInt, SymBool)) for x in xs)


def pad2(x):
    return format(x, "02d") if isinstance(x, int) else fmt_value(x, "02d")


def pad4(x):
    return format(x, "04d") if isinstance(x, int) else fmt_value(x, "04d")


def _i(x, what):
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, (int, SymInt)):
        return x
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)


def make(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **kw):
    """datetime(...) with possibly symbolic fields."""
    if month is None or day is None:
        raise TypeError("function missing required argument")
    f = [_i(v, n) for v, n in ((year, "year"), (month, "month"), (day, "day"), (hour, "hour"),
                               (minute, "minute"), (second, "second"), (microsecond, "us"))]
    for v, lo, hi, msg in ((f[0], 1, 9999, "year is out of range"), (f[1], 1, 12, "month must be in 1..12"),
                           (f[2], 1, 31, "day is out of range for month"), (f[3], 0, 23, "hour must be in 0..23"),
                           (f[4], 0, 59, "minute must be in 0..59"), (f[5], 0, 59, "second must be in 0..59")):
        if not b_and([v >= lo, v <= hi]):
            raise ValueError(msg)
    if not day_ok(f[0], f[1], f[2]):
        raise ValueError("day is out of range for month")
    return mkdt(*f, tz=tzinfo)


def mkdt(y, mo, d, h, mi, s=0, us=0, tz=None):
    def fix(v):
        if isinstance(v, SymInt) and v.lo == v.hi:
            return v.lo
        return v
    y, mo, d, h, mi, s, us = map(fix, (y, mo, d, h, mi, s, us))
    if not is_sym(y, mo, d, h, mi, s, us):
        return _dt.datetime(y, mo, d, h, mi, s, us, tz)
    return SymDT(y, mo, d, h, mi, s, us, tz)


def lift(x):
    if isinstance(x, _dt.datetime):
        return SymDT(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.tzinfo)
    return x


class SymDT:
    __slots__ = ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo")

    def __init__(self, y, mo, d, h, mi, s=0, us=0, tz=None):
        self.year, self.month, self.day, self.hour, self.minute = y, mo, d, h, mi
        self.second, self.microsecond, self.tzinfo = s, us, tz

    def _f(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def real(self):
        e = Engine.cur
        return _dt.datetime(*[e.realize_int(v, "datetime field") if isinstance(v, SymInt) else v for v in self._f()],
                            tzinfo=self.tzinfo)

    def __hash__(self):
        return hash(self.real())

    def __repr__(self):
        return "SymDT(%s)" % (self._f(),)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic datetime")

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            o = SymTD(o.days * 86400 + o.seconds, o.microseconds)
        if not isinstance(o, SymTD):
            return NotImplemented
        if o.us:
            raise Unsupported("microseconds")
        return add_seconds(self, o.s, o.parts)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (_dt.timedelta, SymTD)):
            return self + (-o)
        if isinstance(o, (_dt.datetime, SymDT)):
            return diff(self, lift(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return diff(lift(o), self)
        return NotImplemented

    def _cmp(self, o):
        """(less, equal) conditions against another datetime."""
        if not isinstance(o, (_dt.datetime, SymDT)):
            return None
        if (self.tzinfo is None) != (lift(o).tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        n = None
        if isinstance(self, LazyDT) or isinstance(o, LazyDT):
            o = lift(o)
            n = days_apart(self, o)
        if n is not None:
            a, b = [(t.hour, t.minute, t.second, t.microsecond) for t in (self, o)]
            if n:
                return n < 0, False
        else:
            a, b = self._f(), lift(o)._f()
        eqs, lts = [], []
        for x, y in zip(a, b):
            lts.append(b_and(eqs + [x < y]))
            eqs = eqs + [x == y]
        return b_or(lts), b_and(eqs)

    def __eq__(self, o):
        if not isinstance(o, (_dt.datetime, SymDT)):
            return NotImplemented
        if (self.tzinfo is None) != (lift(o).tzinfo is None):
            return False
        return self._cmp(o)[1]

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __lt__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else c[0]

    def __le__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else b_or(c)

    def __gt__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else b_not(b_or(c))

    def __ge__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else b_not(c[0])

    # -- methods
    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None,
                tzinfo=True, **kw):
        f = list(self._f())
        for i, v in enumerate((year, month, day, hour, minute, second, microsecond)):
            if v is not None:
                f[i] = v
        return make(*f, tzinfo=self.tzinfo if tzinfo is True else tzinfo)

    def __str__(self):
        return str(self.real())

    def text(self, sep=" "):
        t = mk(tuple(_a(pad4(self.year)) + ("-",) + _a(pad2(self.month)) + ("-",) + _a(pad2(self.day)) + (sep,)
                     + _a(pad2(self.hour)) + (":",) + _a(pad2(self.minute)) + (":",) + _a(pad2(self.second))))
        if self.tzinfo is not None:
            t = t + self.real().isoformat()[19:]
        return t

    def isoformat(self, sep="T", timespec="auto"):
        if timespec != "auto":
            return self.real().isoformat(sep, timespec)
        return self.text(sep)

    def strftime(self, fmt):
        out, i = [], 0
        fmt = fmt if isinstance(fmt, str) else str(fmt)
        while i < len(fmt):
            c = fmt[i]
            if c == "%" and i + 1 < len(fmt):
                k = fmt[i + 1]
                i += 2
                t = {"Y": lambda: self.year if self.year is None else _any(self.year), "m": lambda: pad2(self.month),
                     "d": lambda: pad2(self.day), "H": lambda: pad2(self.hour), "M": lambda: pad2(self.minute),
                     "S": lambda: pad2(self.second), "y": lambda: pad2(self.year % 100), "%": lambda: "%",
                     "F": lambda: self.text()[:10], "T": lambda: self.text()[11:19],
                     "R": lambda: self.text()[11:16], "f": lambda: "000000"}.get(k)
                if t is None:
                    return self.real().strftime(fmt)
                out.extend(_a(t()))
            else:
                out.append(c)
                i += 1
        return mk(out)

    def __format__(self, spec):
        return format(self.real(), spec)

    def date(self):
        return SymDate(self.year, self.month, self.day)

    def time(self):
        return self.real().time()

    def timetuple(self):
        return self.real().timetuple()

    def timestamp(self):
        return self.real().timestamp()

    def toordinal(self):
        return ordinal(self.year, self.month, self.day)

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def astimezone(self, tz=None):
        if tz is _dt.timezone.utc:
            return SymDT(*self._f(), tz)
        raise Unsupported("astimezone")

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(None)


class SymDate(SymDT):
    __slots__ = ()

    def __init__(self, y, m, d):
        SymDT.__init__(self, y, m, d, 0, 0)

    def real(self):
        return SymDT.real(self).date()

    def text(self, sep=" "):
        return SymDT.text(self)[:10]

    def isoformat(self, *a):
        return self.text()

    def _cmp(self, o):
        if isinstance(o, _dt.date) and not isinstance(o, _dt.datetime):
            o = SymDT(o.year, o.month, o.day, 0, 0)
        return SymDT._cmp(self, o)

    def __eq__(self, o):
        c = self._cmp(o)
        return NotImplemented if c is None else c[1]

    __hash__ = SymDT.__hash__


def _a(s):
    return s.a if isinstance(s, SymStr) else tuple(s)


def _any(v):
    from .shims import s_str
    return s_str(v)


def _k(v):
    return v if isinstance(v, int) else ("e", v.expr.get_id())


def root(y, mo, d, new=None):
    """(origin, days after it) of a date, shared by all dates computed from one another on this path."""
    t = Engine.cur.cache.setdefault("dates", {})
    k = (_k(y), _k(mo), _k(d))
    if new is not None:
        t[k] = (new, (y, mo, d))
    elif k not in t:
        t[k] = ((len(t), 0), (y, mo, d))
    return t[k][0]


def add_seconds(t, s, parts=None):
    h, mi, sec = t.hour, t.minute, t.second
    if t.microsecond:
        raise Unsupported("microseconds")
    if isinstance(s, int):
        days, rem = divmod(s, 86400)
        dh, rem = divmod(rem, 3600)
        dm, ds = divmod(rem, 60)
    elif parts is not None:
        days, dh, dm, ds = parts
    else:
        days, dh, ds = 0, 0, 0
        # a symbolic number of seconds: keep whole minutes exact when possible
        q = s
        if bool(q % 60 == 0):
            dm = q // 60
        else:
            dm, ds = q // 60, q % 60
    sec2 = sec + ds
    cm = 0
    if not isinstance(sec2, int) or sec2 >= 60 or sec2 < 0:
        cm, sec2 = sec2 // 60, sec2 % 60
    mi2 = mi + dm + cm
    ch = 0
    if isinstance(mi2, int):
        ch, mi2 = divmod(mi2, 60)
    else:
        # carry by forking keeps terms linear
        k = 0
        while mi2 >= 60:
            mi2, k = mi2 - 60, k + 1
        while mi2 < 0:
            mi2, k = mi2 + 60, k - 1
        ch = k
        if isinstance(mi2, SymInt):
            mi2 = SymInt(mi2.expr, max(mi2.lo, 0), min(mi2.hi, 59), mi2.deps, mi2.digits if k == 0 and mi2 is mi else None)
    h2 = h + dh + ch
    cd = days
    if isinstance(h2, int):
        c, h2 = divmod(h2, 24)
        cd = cd + c
    else:
        k = 0
        while h2 >= 24:
            h2, k = h2 - 24, k + 1
        while h2 < 0:
            h2, k = h2 + 24, k - 1
        cd = cd + k
        if isinstance(h2, SymInt):
            h2 = SymInt(h2.expr, max(h2.lo, 0), min(h2.hi, 23), h2.deps, h2.digits)
    if isinstance(cd, int):
        if cd == 0:
            if isinstance(t, LazyDT) and t.ymd is None:
                return LazyDT(t.base, t.days, h2, mi2, sec2, 0, t.tzinfo)
            return mkdt(t.year, t.month, t.day, h2, mi2, sec2, 0, t.tzinfo)
        if isinstance(t, LazyDT) and t.ymd is None:
            return LazyDT(t.base, t.days + cd, h2, mi2, sec2, 0, t.tzinfo)
        if is_sym(t.year, t.month, t.day):
            return LazyDT((t.year, t.month, t.day), cd, h2, mi2, sec2, 0, t.tzinfo)
    y, mo, d = shift(t.year, t.month, t.day, cd)
    return mkdt(y, mo, d, h2, mi2, sec2, 0, t.tzinfo)


def shift(y, mo, d, cd):
    """The date cd days after a date."""
    y0, mo0, d0 = y, mo, d
    d2 = d + cd
    steps = 0
    while True:
        if d2 >= 1:
            break
        mo = mo - 1
        if mo < 1:
            y, mo = y - 1, 12
        d2 = d2 + dim(y, mo)
        steps += 1
        if steps > 5000:
            raise Unsupported("large date offset")
    while True:
        if isinstance(d2, int) and d2 <= 28:
            break
        if isinstance(d2, SymInt) and (d2.hi <= 28 or bool(day_ok(y, mo, d2))):
            break
        n = dim(y, mo)
        if d2 <= n:
            break
        d2 = d2 - n
        mo = mo + 1
        if mo > 12:
            y, mo = y + 1, 1
        steps += 1
        if steps > 5000:
            raise Unsupported("large date offset")
    if not b_and([y >= 1, y <= 9999]):
        raise OverflowError("date value out of range")
    d = d2
    if isinstance(d, SymInt):
        d = SymInt(d.expr, max(1, d.lo), min(31, d.hi), d.deps)
    y, mo, d = [v.lo if isinstance(v, SymInt) and v.lo == v.hi else v for v in (y, mo, d)]
    if isinstance(cd, int):
        o, n = root(y0, mo0, d0)
        root(y, mo, d, (o, n + cd))
    return y, mo, d


class LazyDT(SymDT):
    """A number of days after a date; the date is worked out when it is looked at."""
    __slots__ = ("base", "days", "ymd")

    def __init__(self, base, days, h, mi, s=0, us=0, tz=None):
        self.base, self.days, self.ymd = base, days, None
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo = h, mi, s, us, tz

    def force(self):
        if self.ymd is None:
            self.ymd = shift(*self.base, self.days)
        return self.ymd

    year = property(lambda self: self.force()[0])
    month = property(lambda self: self.force()[1])
    day = property(lambda self: self.force()[2])


def days_apart(a, b):
    """Whole days from the date of b to that of a when they are computed from one another, else None."""
    def origin(t):
        if isinstance(t, LazyDT) and t.ymd is None:
            o, n = root(*t.base)
            return o, n + t.days
        return root(t.year, t.month, t.day)
    ra, rb = origin(a), origin(b)
    return ra[1] - rb[1] if ra[0] == rb[0] else None


def diff(a, b):
    if isinstance(a, LazyDT) or isinstance(b, LazyDT):
        n = days_apart(a, b)
        if n is not None:
            return mktd(n * 86400 + (a.hour - b.hour) * 3600 + (a.minute - b.minute) * 60 + (a.second - b.second))
    same = True
    days = 0
    for x, y in zip(a._f()[:3], b._f()[:3]):
        if not (x is y or isinstance(x, int) and isinstance(y, int) and x == y
                or isinstance(x, SymInt) and isinstance(y, SymInt) and x.expr.eq(y.expr)):
            same = False
    if not same:
        if isinstance(a.month, int) and isinstance(b.month, int) and a.month == b.month and (
                a.year is b.year or isinstance(a.year, int) and a.year == b.year):
            days = a.day - b.day
        else:
            ra, rb = root(*a._f()[:3]), root(*b._f()[:3])
            if ra[0] == rb[0]:
                days = ra[1] - rb[1]
            else:
                days = ordinal(a.year, a.month, a.day) - ordinal(b.year, b.month, b.day)
    s = days * 86400 + (a.hour - b.hour) * 3600 + (a.minute - b.minute) * 60 + (a.second - b.second)
    return mktd(s)


def mktd(s, us=0, parts=None):
    if isinstance(s, int):
        return _dt.timedelta(seconds=s, microseconds=us)
    return SymTD(s, us, parts)


def td(*args, **kw):
    """timedelta(...) with symbolic arguments."""
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
    v = dict(zip(names, args))
    v.update(kw)
    tot, parts = 0, {"days": 0, "hours": 0, "minutes": 0, "seconds": 0}
    for k, m in (("days", 86400), ("seconds", 1), ("minutes", 60), ("hours", 3600), ("weeks", 604800)):
        x = v.pop(k, 0)
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, core.SymFloat):
            x = x.realize()
        if isinstance(x, float):
            y = x * m
            if y != int(y):
                raise Unsupported("fractional timedelta")
            x, k, m = int(y), "seconds", 1
        tot = tot + x * m
        if k == "weeks":
            x, k = x * 7, "days"
        parts[k] = parts[k] + x
    if any(v.values()):
        raise Unsupported("sub-second timedelta")
    return mktd(tot, 0, (parts["days"], parts["hours"], parts["minutes"], parts["seconds"]))


class SymTD:
    __slots__ = ("s", "us", "parts")

    def __init__(self, s, us=0, parts=None):
        self.s, self.us = s, us
        self.parts = parts  # (days, hours, minutes, seconds) as given, if known

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        return self.s % 86400

    @property
    def microseconds(self):
        return 0

    def total_seconds(self):
        return core.SymFloat.of(self.s) if isinstance(self.s, SymInt) else float(self.s)

    def real(self):
        s = self.s
        return _dt.timedelta(seconds=Engine.cur.realize_int(s, "timedelta") if isinstance(s, SymInt) else s)

    def __repr__(self):
        return "SymTD(%s)" % (self.s,)

    def __str__(self):
        return str(self.real())

    def __hash__(self):
        return hash(self.real())

    @staticmethod
    def sec(o):
        if isinstance(o, SymTD):
            return o.s
        if isinstance(o, _dt.timedelta):
            if o.microseconds:
                raise Unsupported("microseconds")
            return o.days * 86400 + o.seconds
        return None

    def __add__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else mktd(self.s + v)

    def __radd__(self, o):
        if isinstance(o, _dt.datetime):
            return lift(o) + self
        if isinstance(o, _dt.date):
            n = lift(_dt.datetime(o.year, o.month, o.day)) + self
            return SymDate(n.year, n.month, n.day)
        return self + o

    def __sub__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else mktd(self.s - v)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return lift(o) - self
        v = SymTD.sec(o)
        return NotImplemented if v is None else mktd(v - self.s)

    def __neg__(self):
        return mktd(-self.s)

    def __abs__(self):
        return mktd(abs(self.s))

    def __mul__(self, k):
        return mktd(self.s * k) if isinstance(k, (int, SymInt)) else NotImplemented

    __rmul__ = __mul__

    def __floordiv__(self, o):
        v = SymTD.sec(o)
        if v is not None:
            return self.s // v
        return mktd(self.s // o)

    def __truediv__(self, o):
        v = SymTD.sec(o)
        if v is not None:
            return self.s / v
        raise Unsupported("timedelta division")

    def __mod__(self, o):
        return mktd(self.s % SymTD.sec(o))

    def __bool__(self):
        return bool(self.s != 0)

    def __eq__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else self.s == v

    def __ne__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else self.s != v

    def __lt__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else self.s < v

    def __le__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else self.s <= v

    def __gt__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else self.s > v

    def __ge__(self, o):
        v = SymTD.sec(o)
        return NotImplemented if v is None else self.s >= v

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


core.SYM = core.SYM + (SymDT, SymTD)

_TIME_RE = None


def strptime(text, fmt):
    """datetime.strptime on symbolic text, through the interpreter's own format regex."""
    global _TIME_RE
    from . import regex
    if not isinstance(text, SymStr):
        return _dt.datetime.strptime(text, fmt)
    if not isinstance(fmt, str):
        fmt = str(fmt)
    if _re.search(r"%[^YmdHMSy%]", fmt):
        return _dt.datetime.strptime(str(text), fmt)
    if _TIME_RE is None:
        import _strptime
        _TIME_RE = _strptime.TimeRE()
    pat = regex.compile(_TIME_RE.pattern(fmt), _re.IGNORECASE)
    m = pat.match(text)
    if not m:
        raise ValueError("time data does not match format %r" % fmt)
    if len(text) != m.end():
        raise ValueError("unconverted data remains")
    g = m.groupdict()

    def num(k, default):
        return parse_int(SymStr(_a(g[k]))) if g.get(k) is not None else default
    y = num("Y", 1900)
    if g.get("y") is not None:
        y = num("y", 0)
        y = y + 2000 if y <= 68 else y + 1900
    return make(y, num("m", 1), num("d", 1), num("H", 0), num("M", 0), num("S", 0))


def monthrange(y, m):
    if isinstance(m, SymInt):
        if not b_and([m >= 1, m <= 12]):
            import calendar
            raise calendar.IllegalMonthError(0)
        m = Engine.cur.realize_int(m, "month")
    return (ordinal(y, m, 1) + 6) % 7, dim(y, m)


def wrap_now(local=False):
    """The instant the harness supplies for utcnow (UTC) and now/today (local time)."""
    n = Engine.cur.now if Engine.cur is not None else None
    if n is None:
        return _dt.datetime(2022, 10, 6, 12, 0, 0)
    o = Engine.cur.offset
    if local and not (isinstance(o, int) and o == 0):
        return lift(n) + mktd(o * 60)
    return n
