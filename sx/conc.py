"""Concrete side of the harness API (plain Python, no solver): used to replay on the real package."""
from __future__ import annotations

import datetime as _dt
from fractions import Fraction

from . import sched


class Skip(BaseException):
    pass


class TypeMismatch(Exception):
    pass


def norm(x):
    """JSON-able normal form of an observed value."""
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return {"f": x.hex() if x == x else "nan"}
    if isinstance(x, _dt.datetime):
        return {"dt": [x.year, x.month, x.day, x.hour, x.minute, x.second]}
    if isinstance(x, _dt.date):
        return {"date": [x.year, x.month, x.day]}
    if isinstance(x, _dt.timedelta):
        return {"td": x.days * 86400 + x.seconds}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, dict):
        return {"d": [[norm(k), norm(v)] for k, v in x.items()]}
    if isinstance(x, (set, frozenset)):
        return {"s": sorted(map(repr, x))}
    return {"o": type(x).__name__}


def kind(x):
    if x is None:
        return "None"
    if isinstance(x, bool):
        return "bool"
    if isinstance(x, (int, float, Fraction)):
        return "number"
    if isinstance(x, str):
        return "str"
    if isinstance(x, _dt.datetime):
        return "datetime"
    if isinstance(x, _dt.timedelta):
        return "timedelta"
    if isinstance(x, (list, tuple)):
        return "list"
    if isinstance(x, dict):
        return "dict"
    return type(x).__name__


def same(a, b):
    ka, kb = kind(a), kind(b)
    if ka != kb:
        return False
    if ka == "list":
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ka == "dict":
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


class Outcome:
    """Result of calling into the package: a value or an exception."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None
        self.kind = None if exc is None else type(exc).__name__


class ConH:
    symbolic = False

    def __init__(self, inputs, pkg, clock):
        self.inputs, self.pkg, self.clock = inputs, pkg, clock
        self.results = []
        self.observed = []

    def __getattr__(self, name):
        return getattr(self.pkg, name)

    # inputs
    def str(self, name, n, alphabet=None):
        return self.inputs[name]

    def digits(self, name, n):
        return self.inputs[name]

    def int(self, name, lo, hi):
        return self.inputs[name]

    def choose(self, name, options):
        return options[self.inputs[name]]

    def bool(self, name):
        return self.choose(name, (False, True))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def set_now(self, y, mo, d, h=0, mi=0, offset=0):
        self.clock.now = (y, mo, d, h, mi, 0)
        self.clock.offset = offset

    # verdicts
    def check(self, cond, label, *detail):
        self.results.append((label, bool(cond), repr(detail)[:600]))

    def eq(self, actual, expected, label):
        self.observed.append((label, norm(actual)))
        self.results.append((label, same(actual, expected), "got %r, expected %r" % (actual, expected)))

    def close(self, actual, expected, label, rel=Fraction(2, 10 ** 6), abs_=Fraction(1, 10 ** 6)):
        self.observed.append((label, norm(actual)))
        if expected is None or actual is None or isinstance(actual, (str, bool)):
            ok = actual is None and expected is None
        else:
            e = Fraction(expected)
            ok = abs(Fraction(actual) - e) <= rel * abs(e) + abs_
            expected = float(e)
        self.results.append((label, ok, "got %r, expected %r" % (actual, expected)))

    def none(self, actual, label):
        self.eq(actual, None, label)

    def observe(self, label, value):
        self.observed.append((label, norm(value)))

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            return Outcome(None, e)

    def printed(self):
        return list(self.clock.out.lines())

    def events(self, fn):
        return sched.events(fn)

    def lines(self, fn):
        return sched.lines(fn)

    def scheduled(self, a, b, first, second):
        return sched.scheduled(a, b, first, second)

    def state(self):
        return None
