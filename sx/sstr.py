"""Symbolic strings: tuples of atoms (one concrete character, a SymChar, or a Fmt)."""
from __future__ import annotations

import re as _re
import string as _string
from fractions import Fraction

import z3

from . import core
from .core import (ALL, DIGITS, Engine, Fmt, SymBool, SymChar, SymFloat, SymInt, Unsupported,
                   b_and, b_not, b_or, mask_chars, mask_of, mk_unary)

WS = mask_of(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")
UPPER = mask_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER = mask_of("abcdefghijklmnopqrstuvwxyz")
ALPHA = UPPER | LOWER


def single(at):
    """The concrete character of an atom, or None."""
    if type(at) is str:
        return at
    if type(at) is SymChar:
        d = Engine.cur.domof(at)
        if d & (d - 1) == 0:
            return chr(d.bit_length() - 1)
    return None


def mk(atoms):
    """A str when everything is concrete, else a SymStr."""
    out = []
    conc = True
    for at in atoms:
        if type(at) is SymChar:
            c = single(at)
            if c is not None:
                at = c
            else:
                conc = False
        elif type(at) is Fmt:
            conc = False
        out.append(at)
    if conc:
        return "".join(out)
    return SymStr(tuple(out))


def atoms_of(s):
    if isinstance(s, SymStr):
        return s.a
    return tuple(s)


def amask(at):
    """Mask of possible characters of a one-character atom (0 for a non-ASCII literal)."""
    if type(at) is SymChar:
        return Engine.cur.domof(at)
    o = ord(at)
    return 1 << o if o < 128 else 0


def in_mask(at, m):
    """Condition: the atom's character lies in mask m."""
    if type(at) is SymChar:
        return mk_unary([(at, m)])
    o = ord(at)
    return bool(m >> o & 1) if o < 128 else False


def all_in(atoms, m):
    un = []
    for at in atoms:
        if type(at) is SymChar:
            un.append((at, m))
        else:
            o = ord(at)
            if o >= 128 or not m >> o & 1:
                return False
    return mk_unary(un) if un else True


def char_eq(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    if type(a) is str:
        a, b = b, a
    if type(b) is str:
        o = ord(b)
        return mk_unary([(a, 1 << o)]) if o < 128 else False
    if a.key == b.key:
        return True
    e = Engine.cur
    da, db = e.domof(a), e.domof(b)
    if da & db == 0:
        return False
    return SymBool(a.expr == b.expr, None, a.deps | b.deps)


def has_fmt(atoms):
    return any(type(x) is Fmt for x in atoms)


def solid(s):
    """Atoms of s with Fmt atoms realised to text."""
    a = atoms_of(s)
    if not has_fmt(a):
        return a
    out = []
    for x in a:
        if type(x) is Fmt:
            out.extend(x.realize())
        else:
            out.append(x)
    return tuple(out)


def fmt_eq_text(f, text):
    """Condition under which a Fmt atom spells the concrete text."""
    try:
        v = float(text.replace(",", ""))
    except ValueError:
        return False
    x = f.x
    up = x.dir > 0

    def val(n):
        return float(f.at(n).replace(",", ""))

    def first(pred):
        lo, hi = x.n.lo, x.n.hi + 1
        while lo < hi:
            mid = (lo + hi) // 2
            if pred(val(mid)):
                hi = mid
            else:
                lo = mid + 1
        return lo
    if up:
        a, b = first(lambda t: t >= v), first(lambda t: t > v)
    else:
        a, b = first(lambda t: t <= v), first(lambda t: t < v)
    while a < b and f.at(a) != text:
        a += 1
    while a < b and f.at(b - 1) != text:
        b -= 1
    if a >= b:
        return False
    return b_and([x.n >= a, x.n < b])


def s_eq(s, t):
    a, b = list(atoms_of(s)), list(atoms_of(t))
    conds = []
    if has_fmt(a) or has_fmt(b):
        # common prefix / suffix
        while a and b:
            x, y = a[0], b[0]
            if type(x) is Fmt or type(y) is Fmt:
                if type(x) is Fmt and type(y) is Fmt and x.eq(y):
                    a.pop(0), b.pop(0)
                    continue
                break
            c = char_eq(x, y)
            if c is False:
                return False
            conds.append(c)
            a.pop(0), b.pop(0)
        while a and b:
            x, y = a[-1], b[-1]
            if type(x) is Fmt or type(y) is Fmt:
                if type(x) is Fmt and type(y) is Fmt and x.eq(y):
                    a.pop(), b.pop()
                    continue
                break
            c = char_eq(x, y)
            if c is False:
                return False
            conds.append(c)
            a.pop(), b.pop()
        if has_fmt(b) and not has_fmt(a):
            a, b = b, a
        if has_fmt(a):
            if not b:
                return False
            if len(a) == 1 and not has_fmt(b):
                f = a[0]
                m = f.text_mask()
                cc = [in_mask(y, m) for y in b]
                if any(c is False for c in cc):
                    return False
                if all(type(y) is str for y in b):
                    conds.append(fmt_eq_text(f, "".join(b)))
                    return b_and(conds)
            a, b = solid(SymStr(tuple(a))), solid(SymStr(tuple(b)))
    if len(a) != len(b):
        return False
    un = []
    for x, y in zip(a, b):
        tx, ty = type(x) is SymChar, type(y) is SymChar
        if tx and ty:
            conds.append(char_eq(x, y))
        elif tx or ty:
            ch, c = (x, y) if tx else (y, x)
            o = ord(c)
            if o >= 128:
                return False
            un.append((ch, 1 << o))
        elif x != y:
            return False
    if un:
        conds.append(mk_unary(un))
    return b_and(conds)


def map_char(at, table):
    """Apply a character map (dict code->code) to an atom."""
    if type(at) is str:
        o = ord(at)
        return chr(table.get(o, o))
    if type(at) is Fmt:
        return at
    d = Engine.cur.domof(at)
    hit = {o: t for o, t in table.items() if d >> o & 1 and t != o}
    if not hit:
        return at
    nd = 0
    e = at.expr
    deltas = {}
    for o in range(128):
        if d >> o & 1:
            t = hit.get(o, o)
            nd |= 1 << t
            deltas.setdefault(t - o, 0)
            deltas[t - o] |= 1 << o
    expr = e
    for dl, m in deltas.items():
        if dl:
            expr = z3.If(core.mask_expr(e, m), e + dl, expr)
    return SymChar(expr, nd, ("map", at.key, tuple(sorted(hit.items()))), False, at.deps)


_UP = {o: o - 32 for o in range(97, 123)}
_LOW = {o: o + 32 for o in range(65, 91)}
_SWAP = dict(_UP)
_SWAP.update(_LOW)


class SymStr:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    # -- identity
    def __repr__(self):
        return "SymStr(%s)" % "".join(x if type(x) is str else "?" if type(x) is SymChar else "{f}" for x in self.a)

    def real(self):
        e = Engine.cur
        return "".join(x if type(x) is str else x.realize() if type(x) is Fmt else e.realize_char(x) for x in self.a)

    def fix(self):
        from .shims import realize
        return realize(self)

    def __str__(self):
        return self.real()

    def __format__(self, spec):
        return format(self.real(), spec)

    def __hash__(self):
        return hash(self.real())

    def __bool__(self):
        return True

    def __len__(self):
        return len(solid(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return s_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)):
            return b_not(s_eq(self, o))
        return NotImplemented

    def _lt(self, o, eq):
        a, b = solid(self), solid(o)
        for x, y in zip(a, b):
            if char_eq(x, y):
                continue
            ex = x.expr if type(x) is SymChar else z3.IntVal(ord(x))
            ey = y.expr if type(y) is SymChar else z3.IntVal(ord(y))
            deps = (x.deps if type(x) is SymChar else frozenset()) | (y.deps if type(y) is SymChar else frozenset())
            if not deps:
                return x < y
            return SymBool(ex < ey, None, deps)
        return len(a) <= len(b) if eq else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False) if isinstance(o, (str, SymStr)) else NotImplemented

    def __le__(self, o):
        return self._lt(o, True) if isinstance(o, (str, SymStr)) else NotImplemented

    def __gt__(self, o):
        return b_not(self._lt(o, True)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __ge__(self, o):
        return b_not(self._lt(o, False)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(self.a + atoms_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(atoms_of(o) + self.a)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.a * n.__index__())

    __rmul__ = __mul__

    def __mod__(self, args):
        return str(self) % args

    def __iter__(self):
        return iter([mk((x,)) for x in solid(self)])

    def __getitem__(self, i):
        a = solid(self)
        if isinstance(i, slice):
            def ix(v):
                return v.__index__() if isinstance(v, SymInt) else v
            return mk(a[slice(ix(i.start), ix(i.stop), ix(i.step))])
        if isinstance(i, (SymInt, SymBool)):
            i = i.__index__()
        if not isinstance(i, int):
            raise TypeError("string indices must be integers, not %r" % type(i).__name__)
        return mk((a[i],))

    def __int__(self):
        return int(self.real())

    def __float__(self):
        return float(self.real())

    # -- searching
    def _at(self, a, i, nd):
        """Condition: needle nd occurs at position i of a."""
        if i + len(nd) > len(a) or i < 0:
            return False
        un, conds = [], []
        for x, y in zip(a[i:i + len(nd)], nd):
            if type(x) is SymChar and type(y) is str:
                if ord(y) >= 128:
                    return False
                un.append((x, 1 << ord(y)))
            elif type(x) is str and type(y) is str:
                if x != y:
                    return False
            else:
                conds.append(char_eq(x, y))
        if un:
            conds.append(mk_unary(un))
        return b_and(conds)

    def __contains__(self, nd):
        return self.contains(nd)

    def contains(self, nd):
        if not isinstance(nd, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand, not " + type(nd).__name__)
        a, n = solid(self), solid(nd)
        return b_or([self._at(a, i, n) for i in range(len(a) - len(n) + 1)])

    def _range(self, a, start, end):
        return range(len(a))[slice(*(None if v is None else v.__index__() for v in (start, end)))]

    def find(self, nd, start=None, end=None):
        a, n = solid(self), solid(nd)
        s0, e0, _ = slice(*(None if v is None else v.__index__() for v in (start, end))).indices(len(a))
        for i in range(s0, e0 - len(n) + 1):
            if self._at(a, i, n):
                return i
        return -1

    def rfind(self, nd, start=None, end=None):
        a, n = solid(self), solid(nd)
        s0, e0, _ = slice(*(None if v is None else v.__index__() for v in (start, end))).indices(len(a))
        for i in range(e0 - len(n), s0 - 1, -1):
            if self._at(a, i, n):
                return i
        return -1

    def index(self, nd, *r):
        i = self.find(nd, *r)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, nd, *r):
        i = self.rfind(nd, *r)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, nd, start=None, end=None):
        a, n = solid(self), solid(nd)
        s0, e0, _ = slice(*(None if v is None else v.__index__() for v in (start, end))).indices(len(a))
        if not n:
            return e0 - s0 + 1
        c, i = 0, s0
        while i + len(n) <= e0:
            if self._at(a, i, n):
                c += 1
                i += len(n)
            else:
                i += 1
        return c

    def startswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[slice(start, end)]
        if isinstance(p, tuple):
            return b_or([s_startswith(s, q) for q in p])
        return s_startswith(s, p)

    def endswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[slice(start, end)]
        if isinstance(p, tuple):
            return b_or([s_endswith(s, q) for q in p])
        return s_endswith(s, p)

    def replace(self, old, new, count=-1):
        n = solid(old)
        if len(n) == 1 and type(n[0]) is str and has_fmt(self.a) and not any(
                type(x) is Fmt and x.text_mask() & amask(n[0]) for x in self.a):
            a = self.a
        else:
            a = solid(self)
        r = atoms_of(new)
        out, i, k = [], 0, 0
        if not n:
            for j, x in enumerate(a):
                if count < 0 or k < count:
                    out.extend(r)
                    k += 1
                out.append(x)
            if count < 0 or k < count:
                out.extend(r)
            return mk(out)
        while i < len(a):
            if type(a[i]) is not Fmt and (count < 0 or k < count) and self._at(a, i, n):
                out.extend(r)
                i += len(n)
                k += 1
            else:
                out.append(a[i])
                i += 1
        return mk(out)

    def split(self, sep=None, maxsplit=-1):
        a = solid(self) if sep is not None or not has_fmt(self.a) else self.a
        out, cur = [], []
        if sep is None:
            i = 0
            n = len(a)

            def ws(x):
                return type(x) is not Fmt and bool(in_mask(x, WS)) if type(x) is SymChar else (
                    type(x) is str and x.isspace())
            while i < n:
                while i < n and ws(a[i]):
                    i += 1
                if i >= n:
                    break
                if 0 <= maxsplit <= len(out):
                    out.append(mk(a[i:n]))
                    return out
                j = i
                while j < n and not ws(a[j]):
                    j += 1
                out.append(mk(a[i:j]))
                i = j
            return out
        nd = solid(sep)
        if not nd:
            raise ValueError("empty separator")
        i = 0
        while i < len(a):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(a, i, nd):
                out.append(mk(cur))
                cur = []
                i += len(nd)
            else:
                cur.append(a[i])
                i += 1
        out.append(mk(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            rev = SymStr(tuple(reversed(solid(self)))).split(None, maxsplit)
            return [mk(tuple(reversed(atoms_of(x)))) for x in reversed(rev)]
        rev = SymStr(tuple(reversed(solid(self)))).split(mk(tuple(reversed(solid(sep)))), maxsplit)
        return [mk(tuple(reversed(atoms_of(x)))) for x in reversed(rev)]

    def splitlines(self, keepends=False):
        a = solid(self)
        m = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e")
        out, cur = [], []
        i = 0
        while i < len(a):
            if in_mask(a[i], m):
                e = [a[i]]
                if in_mask(a[i], mask_of("\r")) and i + 1 < len(a) and in_mask(a[i + 1], mask_of("\n")):
                    i += 1
                    e.append(a[i])
                out.append(mk(cur + (e if keepends else [])))
                cur = []
            else:
                cur.append(a[i])
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        a = solid(self)
        return (mk(a[:i]), sep, mk(a[i + len(solid(sep)):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        a = solid(self)
        return (mk(a[:i]), sep, mk(a[i + len(solid(sep)):]))

    def _strip(self, chars, left, right):
        a = list(self.a)

        def test(x):
            if type(x) is Fmt:
                m = x.text_mask()
                cm = WS if chars is None else mask_of(str(chars))
                if m & cm & ~mask_of(" ") == 0 and not (m & cm):
                    return False
                raise Unsupported("strip over a formatted float")
            if chars is None:
                return in_mask(x, WS) if type(x) is SymChar else x.isspace()
            cs = solid(chars)
            if all(type(c) is str and ord(c) < 128 for c in cs):
                return in_mask(x, mask_of("".join(cs)))
            return b_or([char_eq(x, c) for c in cs])
        if left:
            while a and test(a[0]):
                a.pop(0)
        if right:
            while a and test(a[-1]):
                a.pop()
        return mk(a)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        if s_startswith(self, p):
            return mk(solid(self)[len(solid(p)):])
        return self

    def removesuffix(self, p):
        if len(p) and s_endswith(self, p):
            return mk(solid(self)[:-len(solid(p))])
        return self

    # -- case
    def upper(self):
        return mk([x.upper() if type(x) is str else map_char(x, _UP) for x in self.a])

    def lower(self):
        return mk([x.lower() if type(x) is str else map_char(x, _LOW) for x in self.a])

    casefold = lower

    def swapcase(self):
        return mk([x.swapcase() if type(x) is str else map_char(x, _SWAP) for x in self.a])

    def capitalize(self):
        a = solid(self)
        return mk((a[0].upper() if type(a[0]) is str else map_char(a[0], _UP),)
                  + tuple(x.lower() if type(x) is str else map_char(x, _LOW) for x in a[1:]))

    def title(self):
        a = solid(self)
        out, prev = [], False
        for x in a:
            t = _LOW if prev else _UP
            out.append(map_char(x, t))
            prev = bool(in_mask(x, ALPHA))
        return mk(out)

    # -- classes
    def _all(self, m):
        a = solid(self)
        if not a:
            return False
        if any(type(x) is str and ord(x) >= 128 for x in a):
            raise Unsupported("character class of a non-ASCII literal")
        return all_in(a, m)

    def isdigit(self):
        return self._all(DIGITS)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA | DIGITS)

    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return all(type(x) is not str or ord(x) < 128 for x in self.a)

    def isprintable(self):
        return self._all(ALL & ~((1 << 32) - 1) & ~(1 << 127))

    def isupper(self):
        return b_and([b_not(self.contains_mask(LOWER)), self.contains_mask(UPPER)])

    def islower(self):
        return b_and([b_not(self.contains_mask(UPPER)), self.contains_mask(LOWER)])

    def contains_mask(self, m):
        return b_or([in_mask(x, m) for x in solid(self)])

    def isidentifier(self):
        return self.real().isidentifier()

    # -- layout
    def zfill(self, w):
        a = solid(self)
        pad = w.__index__() - len(a)
        if pad <= 0:
            return self
        if in_mask(a[0], mask_of("+-")):
            return mk((a[0],) + ("0",) * pad + a[1:])
        return mk(("0",) * pad + a)

    def ljust(self, w, fill=" "):
        a = solid(self)
        return mk(a + (fill,) * max(0, w - len(a)))

    def rjust(self, w, fill=" "):
        a = solid(self)
        return mk((fill,) * max(0, w - len(a)) + a)

    def center(self, w, fill=" "):
        a = solid(self)
        n = max(0, w - len(a))
        left = n // 2 + (n & w & 1)
        return mk((fill,) * left + a + (fill,) * (n - left))

    def expandtabs(self, n=8):
        return self.real().expandtabs(n)

    def encode(self, *a):
        return self.real().encode(*a)

    def translate(self, table):
        out = []
        for x in solid(self):
            if type(x) is SymChar:
                d = mask_chars(Engine.cur.domof(x))
                t = {}
                plain = True
                for c in d:
                    r = c.translate(table)
                    if len(r) != 1 or ord(r) >= 128:
                        plain = False
                    else:
                        t[ord(c)] = ord(r)
                if plain:
                    out.append(map_char(x, t))
                else:
                    out.extend(Engine.cur.realize_char(x).translate(table))
            else:
                out.extend(x.translate(table))
        return mk(out)

    def join(self, items):
        return s_join(self, items)

    def format(self, *a, **k):
        return s_format(self.real(), a, k)


core.SymStr = SymStr
core.SYM = core.SYM + (SymStr,)


def s_startswith(s, p):
    a, n = atoms_of(s), solid(p)
    if has_fmt(a[:len(n)]):
        a = solid(s)
    return SymStr._at(None, a, 0, n) if n else True


def s_endswith(s, p):
    a, n = atoms_of(s), solid(p)
    if n and has_fmt(a[-len(n):]):
        a = solid(s)
    return SymStr._at(None, a, len(a) - len(n), n) if n else True


def s_join(sep, items):
    out = []
    for i, it in enumerate(items):
        if not isinstance(it, (str, SymStr)):
            raise TypeError("sequence item %d: expected str instance, %s found" % (i, type(it).__name__))
        if i:
            out.extend(atoms_of(sep))
        out.extend(atoms_of(it))
    return mk(out)


# --------------------------------------------------------------------------- parsing numbers
def _whole(atoms):
    """The symbolic integer whose complete decimal digits these are, if so."""
    t = Engine.cur.cache.get("digits")
    if not t:
        return None
    a = list(atoms)
    while len(a) > 1 and type(a[0]) is str and a[0] == "0":
        a.pop(0)
    src = None
    for x in a:
        if type(x) is SymChar:
            src = t.get(x.key)
            break
    if src is None:
        return None
    si, made = src
    if len(made) != len(a):
        return None
    for x, y in zip(a, made):
        if x is not y and not (type(x) is str and single(y) == x):
            return None
    return SymInt(si.expr, max(si.lo, 0), si.hi, si.deps, tuple(atoms))


def digits_value(atoms):
    """Integer denoted by digit atoms."""
    whole = _whole(atoms)
    if whole is not None:
        return whole
    exprs, lo, hi, deps, const = [], 0, 0, frozenset(), 0
    n = len(atoms)
    for i, x in enumerate(atoms):
        w = 10 ** (n - 1 - i)
        c = single(x)
        if c is not None:
            const += w * (ord(c) - 48)
            continue
        d = Engine.cur.domof(x) & DIGITS
        l0 = (d & -d).bit_length() - 1 - 48
        h0 = d.bit_length() - 1 - 48
        exprs.append((x.expr - 48) * w if w != 1 else x.expr - 48)
        lo += w * l0
        hi += w * h0
        deps |= x.deps
    lo += const
    hi += const
    if not exprs:
        return const
    e = z3.Sum(exprs + [z3.IntVal(const)]) if const or len(exprs) > 1 else exprs[0]
    r = SymInt(e, lo, hi, deps, tuple(atoms))
    return lo if lo == hi else r


def _trim(a):
    a = list(a)
    while a and in_mask(a[0], WS) if a and type(a[0]) is SymChar else (a and a[0].isspace()):
        a.pop(0)
    while a and in_mask(a[-1], WS) if a and type(a[-1]) is SymChar else (a and a[-1].isspace()):
        a.pop()
    return a


def parse_int(s, base=10):
    if base != 10:
        return int(s.real(), base)
    a = solid(s)
    neg = False
    # fast path: every character a digit
    c = all_in(a, DIGITS)
    if c is not True:
        if c is not False and bool(c):
            return digits_value(a)
        special = mask_of("+-_") | WS
        if not any(amask(x) & special or (type(x) is str and ord(x) >= 128) for x in a):
            raise ValueError("invalid literal for int() with base 10: %s" % _show(s))
        a = _trim(a)
        if a and in_mask(a[0], mask_of("+-")):
            neg = bool(in_mask(a[0], mask_of("-")))
            a = a[1:]
        out = []
        for i, x in enumerate(a):
            if in_mask(x, mask_of("_")) and 0 < i < len(a) - 1:
                continue
            out.append(x)
        under = len(out) != len(a)
        if under:  # underscores must separate digits
            prev = False
            for i, x in enumerate(a):
                isu = bool(in_mask(x, mask_of("_")))
                if isu and prev:
                    raise ValueError("invalid literal for int() with base 10")
                prev = isu
        if not out or not bool(all_in(out, DIGITS)):
            raise ValueError("invalid literal for int() with base 10: %s" % _show(s))
        a = tuple(out)
    v = digits_value(a)
    if neg:
        return -v
    return v


def _show(s):
    return "'...'"


def _div10(k):
    p = 10 ** k
    return lambda n: n / p


_div_cache = {k: _div10(k) for k in range(0, 12)}


def parse_float(s):
    a = atoms_of(s)
    if has_fmt(a):
        neg = False
        if len(a) == 2 and type(a[0]) is str and a[0] in "+-":
            neg = a[0] == "-"
            a = a[1:]
        if len(a) == 1:
            f = a[0]
            x = f.x
            A, B, err = x.lin
            spec = f.spec
            m = _re.fullmatch(r"(?:0?\d*)\.(\d+)f", spec or "")
            if spec is None or spec == "":
                r = x if x.kind == "float" else SymFloat(x.n, x.ops + (float,), x.dir, x.lin)
            elif m:
                d = int(m.group(1))
                e2 = err + Fraction(1, 2) / 10 ** d + core.U * (x.maxabs() + 1)
                r = x._mk(lambda v, spec=spec: float(format(v, spec)), False, (A, B, e2))
            else:
                return float(s.real())
            return -r if neg else r
        return float(s.real())
    FLOATCH = mask_of("0123456789.+-eE_infatyINFATY") | WS
    for x in a:
        if type(x) is SymChar:
            if amask(x) & FLOATCH == 0:
                raise ValueError("could not convert string to float: %s" % _show(s))
        elif ord(x) < 128 and not FLOATCH >> ord(x) & 1:
            raise ValueError("could not convert string to float: %s" % _show(s))
    c = all_in(a, DIGITS)
    if c is True or (c is not False and bool(c)):
        return SymFloat.of(digits_value(a)) if not isinstance(digits_value(a), int) else float(digits_value(a))
    a = _trim(a)
    neg = False
    if a and in_mask(a[0], mask_of("+-")):
        neg = bool(in_mask(a[0], mask_of("-")))
        a = a[1:]
    digs, k, seen = [], 0, False
    for i, x in enumerate(a):
        if in_mask(x, DIGITS):
            digs.append(x)
            if seen:
                k += 1
        elif in_mask(x, mask_of(".")) and not seen:
            seen = True
        else:
            # exponent, underscore, inf/nan or error: settle by enumeration of the rest
            if amask(x) & mask_of("eE_infIN") == 0:
                raise ValueError("could not convert string to float: %s" % _show(s))
            t = mk(tuple(["-"] if neg else []) + tuple(a))
            t = t if type(t) is str else t.real()
            return float(t)
    if not digs:
        raise ValueError("could not convert string to float: %s" % _show(s))
    n = digits_value(tuple(digs))
    if isinstance(n, int):
        v = n / 10 ** k
        return -v if neg else v
    if k == 0:
        r = SymFloat.of(n)
    else:
        op = _div_cache[k]
        fc = Fraction(1, 10 ** k)
        r = SymFloat(n, (op,), 1, (fc, Fraction(0), core.U * Fraction(n.hi + 1) * fc))
    return -r if neg else r


# --------------------------------------------------------------------------- lengths
class SymLen:
    """Length of a text holding one formatted float: base + len(f(n))."""

    __slots__ = ("base", "f")

    def __init__(self, base, f):
        self.base, self.f = base, f

    def _where(self, pred):
        x = self.f.x
        runs, start = [], None
        for n in range(x.n.lo, x.n.hi + 1):
            if pred(self.base + len(self.f.at(n))):
                if start is None:
                    start = n
            elif start is not None:
                runs.append((start, n - 1))
                start = None
        if start is not None:
            runs.append((start, x.n.hi))
        if len(runs) > 40:
            return pred(self.__index__())
        return b_or([b_and([x.n >= a, x.n <= b]) for a, b in runs])

    def __index__(self):
        return self.base + len(self.f.realize())

    __int__ = __index__

    def __eq__(self, o):
        return self._where(lambda v: v == o) if isinstance(o, int) else False

    def __ne__(self, o):
        return self._where(lambda v: v != o) if isinstance(o, int) else True

    def __lt__(self, o):
        return self._where(lambda v: v < o)

    def __le__(self, o):
        return self._where(lambda v: v <= o)

    def __gt__(self, o):
        return self._where(lambda v: v > o)

    def __ge__(self, o):
        return self._where(lambda v: v >= o)

    def __bool__(self):
        return True

    def __hash__(self):
        return hash(self.__index__())

    def __add__(self, o):
        return SymLen(self.base + o, self.f) if isinstance(o, int) else self.__index__() + o

    __radd__ = __add__

    def __sub__(self, o):
        return SymLen(self.base - o, self.f) if isinstance(o, int) else self.__index__() - o

    def __rsub__(self, o):
        return o - self.__index__()

    def __mul__(self, o):
        return self.__index__() * o

    __rmul__ = __mul__

    def __mod__(self, o):
        return self.__index__() % o

    def __floordiv__(self, o):
        return self.__index__() // o


def s_len(s):
    fm = [x for x in s.a if type(x) is Fmt]
    if not fm:
        return len(s.a)
    if len(fm) == 1 and fm[0].x.n.hi - fm[0].x.n.lo <= 20000:
        return SymLen(len(s.a) - 1, fm[0])
    return len(solid(s))


# --------------------------------------------------------------------------- formatting
def fresh_digit(expr, dom, deps):
    e = Engine.cur
    e.fresh += 1
    return SymChar(expr, dom, ("d", e.fresh), False, deps)


def int_atoms(si):
    """Decimal digits of a SymInt (forks on sign and length)."""
    if si.lo < 0:
        if si < 0:
            return ("-",) + int_atoms_nn(-si)
        si = SymInt(si.expr, 0, si.hi, si.deps, si.digits)
    return int_atoms_nn(si)


def int_atoms_nn(si):
    lo, hi = max(si.lo, 0), si.hi
    nlo, nhi = len(str(lo)), len(str(hi))
    nd = nlo
    while nd < nhi and not (si < 10 ** nd):
        nd += 1
    if si.digits is not None and len(si.digits) >= nd:
        return tuple(si.digits[len(si.digits) - nd:])
    return fixed_digits(si, nd)


def fixed_digits(si, nd):
    out = []
    for i in range(nd - 1, -1, -1):
        e = si.expr
        if i:
            e = e / (10 ** i)
        if si.hi >= 10 ** (i + 1):
            e = e % 10
        lo, hi = max(si.lo, 0) // 10 ** i, si.hi // 10 ** i
        if hi - lo >= 9 or hi >= 10 and hi % 10 < lo % 10:
            dom = DIGITS
        else:
            dom = mask_of("".join(chr(48 + v % 10) for v in range(lo, hi + 1)))
        # leading digit of a shorter-than-range number
        out.append(fresh_digit(e + 48, dom, si.deps))
    made = tuple(out)
    t = Engine.cur.cache.setdefault("digits", {})
    for x in made:
        t[x.key] = (si, made)
    return made


_SPEC = _re.compile(r"(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<z>z)?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?"
                    r"(?P<grp>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$")


def pad(atoms, fill, align, width):
    n = width - len(atoms)
    if n <= 0:
        return tuple(atoms)
    if align == "<":
        return tuple(atoms) + (fill,) * n
    if align == "^":
        return (fill,) * (n // 2) + tuple(atoms) + (fill,) * (n - n // 2)
    return (fill,) * n + tuple(atoms)


def fmt_value(x, spec):
    """format(x, spec) for a symbolic x."""
    if isinstance(spec, SymStr):
        spec = spec.real()
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    m = _SPEC.match(spec)
    if isinstance(x, SymStr):
        if not spec:
            return x
        if not m or m["type"] not in (None, "s") or m["sign"] or m["align"] == "=" or m["grp"]:
            raise ValueError("Unknown format code for object of type 'str'")
        a = solid(x)
        if m["prec"]:
            a = a[:int(m["prec"])]
        return mk(pad(a, m["fill"] or ("0" if m["zero"] else " "), m["align"] or "<", int(m["width"] or 0)))
    if isinstance(x, SymInt):
        t = m and m["type"]
        if not m or t not in (None, "d", "n"):
            if t in ("f", "F", "e", "g", "%"):
                return fmt_value(SymFloat.of(x), spec)
            return format(Engine.cur.realize_int(x, "format"), spec)
        if m["grp"] or m["prec"]:
            return format(Engine.cur.realize_int(x, "format"), spec)
        w = int(m["width"] or 0)
        fill = m["fill"] or ("0" if m["zero"] else " ")
        align = m["align"] or ("=" if m["zero"] else ">")
        if fill == "0" and align == "=" and x.lo >= 0 and not m["sign"] and x.hi < 10 ** w:
            if x.digits is not None:
                d = tuple(x.digits)
                return mk(("0",) * (w - len(d)) + d if len(d) <= w else d[len(d) - w:])
            nd = len(str(x.hi))
            return mk(("0",) * (w - nd) + fixed_digits(x, nd))
        a = int_atoms(x)
        sign = ()
        if a[0] == "-":
            sign, a = ("-",), a[1:]
        elif m["sign"] in ("+", " "):
            sign = (m["sign"],)
        if align == "=":
            return mk(sign + pad(a, fill, ">", w - len(sign)))
        return mk(pad(sign + tuple(a), fill, align, w))
    if isinstance(x, SymFloat):
        if x.kind == "int":
            n = Engine.cur.realize_int(x.n, "format")
            return format(x.f(n), spec)
        if m is None:
            raise ValueError("Invalid format specifier")
        return mk((Fmt(x, spec or None),))
    raise Unsupported("format of %s" % type(x).__name__)
