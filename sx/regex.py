"""Symbolic matching of Python regular expressions.

The parse tree comes from the interpreter's own `re._parser`; matching enumerates, in CPython's
backtracking priority order, the ways a pattern can match the atoms of a symbolic string together
with the condition on the characters of each way. The first way whose condition holds is the match.
"""
from __future__ import annotations

import re as _re
from itertools import islice
from re import _constants as C
from re import _parser as P

import z3

from . import core
from .core import ALL, Engine, Fmt, SymBool, SymChar, Unsupported, b_and, b_not, b_or, mk_unary
from .sstr import SymStr, amask, atoms_of, char_eq, has_fmt, in_mask, mk, solid

_DIG = core.mask_of("0123456789")
_SP = core.mask_of(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")
_WD = core.mask_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_")
_CAT = {
    C.CATEGORY_DIGIT: _DIG, C.CATEGORY_NOT_DIGIT: ALL & ~_DIG,
    C.CATEGORY_SPACE: _SP, C.CATEGORY_NOT_SPACE: ALL & ~_SP,
    C.CATEGORY_WORD: _WD, C.CATEGORY_NOT_WORD: ALL & ~_WD,
}
_NL = 1 << 10


def _fold(m):
    up = m & core.mask_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
    lo = m & core.mask_of("abcdefghijklmnopqrstuvwxyz")
    return m | up << 32 | lo >> 32


class CharSet:
    """A character class: a mask for ASCII and a predicate for other literals."""

    __slots__ = ("mask", "src")

    def __init__(self, mask, src):
        self.mask, self.src = mask, src

    def test(self, c, flags):
        o = ord(c)
        if o < 128:
            return bool(self.mask >> o & 1)
        op, av = self.src
        if op is C.LITERAL:
            return av == o
        if op is C.NOT_LITERAL:
            return av != o
        if op is C.ANY:
            return True
        if op is C.IN:
            neg = bool(av) and av[0][0] is C.NEGATE
            hit = False
            for k, v in av:
                if k is C.LITERAL:
                    hit |= v == o
                elif k is C.RANGE:
                    hit |= v[0] <= o <= v[1]
                elif k is C.CATEGORY:
                    hit |= {C.CATEGORY_DIGIT: c.isdigit(), C.CATEGORY_NOT_DIGIT: not c.isdigit(),
                            C.CATEGORY_SPACE: c.isspace(), C.CATEGORY_NOT_SPACE: not c.isspace(),
                            C.CATEGORY_WORD: c.isalnum(), C.CATEGORY_NOT_WORD: not c.isalnum()}[v]
            return hit != neg
        return False


def _charset(op, av, flags):
    if op is C.LITERAL:
        m = 1 << av if av < 128 else 0
    elif op is C.NOT_LITERAL:
        m1 = 1 << av if av < 128 else 0
        if flags & _re.I:
            m1 = _fold(m1)
        return CharSet(ALL & ~m1, (op, av))
    elif op is C.ANY:
        return CharSet(ALL if flags & _re.S else ALL & ~_NL, (op, av))
    elif op is C.IN:
        m, neg = 0, False
        for k, v in av:
            if k is C.NEGATE:
                neg = True
            elif k is C.LITERAL:
                m |= 1 << v if v < 128 else 0
            elif k is C.RANGE:
                for o in range(v[0], min(v[1], 127) + 1):
                    m |= 1 << o
            elif k is C.CATEGORY:
                m |= _CAT[v]
            else:
                raise Unsupported("regex class item %s" % k)
        if flags & _re.I:
            m = _fold(m)
        if neg:
            m = ALL & ~m
        return CharSet(m, (op, av))
    else:
        raise Unsupported("regex op %s" % op)
    if flags & _re.I:
        m = _fold(m)
    return CharSet(m, (op, av))


class Way:
    """One way to match so far: character masks, extra conditions, group spans."""

    __slots__ = ("masks", "extra", "groups")

    def __init__(self, masks, extra, groups):
        self.masks, self.extra, self.groups = masks, extra, groups

    def cond(self):
        c = mk_unary(list(self.masks.values())) if self.masks else True
        if self.extra:
            return b_and([c] + list(self.extra))
        return c


class NeedSolid(core.Control):
    """The pattern may match inside the text of a formatted number."""


class Matcher:
    def __init__(self, pat):
        self.tree = pat._tree
        self.flags = pat.flags
        self.budget = 300000
        self.cs = pat._cs

    # take: way with the atom constrained to a char set, or None
    def take(self, w, at, cs):
        if type(at) is str:
            return w if cs.test(at, self.flags) else None
        if type(at) is Fmt:
            if cs.mask & at.text_mask():
                raise NeedSolid()
            return None
        cur = w.masks.get(at.key)
        d = cur[1] if cur else Engine.cur.domof(at)
        i = d & cs.mask
        if i == 0:
            return None
        if i == d:
            return w
        m = dict(w.masks)
        m[at.key] = (at, i)
        return Way(m, w.extra, w.groups)

    def need(self, w, cond):
        if cond is True:
            return w
        if cond is False:
            return None
        return Way(w.masks, w.extra + (cond,), w.groups)

    def seq(self, ops, k, pos, w, flags, cont):
        """Generator over (pos, way) after matching ops[k:] and then the continuation."""
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported("regex expansion too large")
        a = self.a
        n = len(a)
        while True:
            if k == len(ops):
                yield from cont(pos, w)
                return
            op, av = ops[k]
            if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                if pos >= n:
                    return
                key = (id(ops), k, flags)
                cs = self.cs.get(key)
                if cs is None:
                    cs = self.cs[key] = _charset(op, av, flags)
                w = self.take(w, a[pos], cs)
                if w is None:
                    return
                pos += 1
                k += 1
                continue
            break
        k1 = k + 1
        rest = lambda p, ww: self.seq(ops, k1, p, ww, flags, cont)
        if op is C.AT:
            yield from self.at(av, pos, w, flags, rest)
        elif op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(alt.data, 0, pos, w, flags, rest)
        elif op is C.SUBPATTERN:
            g, add, dele, sub = av
            fl = (flags | add) & ~dele
            if g is None:
                yield from self.seq(sub.data, 0, pos, w, fl, rest)
            else:
                def close(p, ww, g=g, pos=pos):
                    gs = dict(ww.groups)
                    gs[g] = (pos, p)
                    gs["last"] = g
                    return rest(p, Way(ww.masks, ww.extra, gs))
                yield from self.seq(sub.data, 0, pos, w, fl, close)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = 10 ** 9 if hi is C.MAXREPEAT else int(hi)
            if op is C.POSSESSIVE_REPEAT:
                yield from self.atomic([(C.MAX_REPEAT, av)], pos, w, flags, rest)
            else:
                yield from self.rep(sub.data, lo, hi, op is C.MAX_REPEAT, 0, pos, -1, w, flags, rest)
        elif op is C.ATOMIC_GROUP:
            yield from self.atomic(av.data, pos, w, flags, rest)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            start = pos
            if direction < 0:
                wd = sub.getwidth()
                if wd[0] != wd[1]:
                    raise Unsupported("look-behind width")
                start = pos - wd[0]
            ways = []
            if start >= 0:
                ways = list(self.seq(sub.data, 0, start, Way({}, (), dict(w.groups)), flags,
                                     lambda p, ww: iter([(p, ww)])))
            if op is C.ASSERT:
                earlier = []
                for _, ww in ways:
                    c = ww.cond()
                    w2 = self.need(Way(w.masks, w.extra, ww.groups), b_and([c] + [b_not(x) for x in earlier]))
                    earlier.append(c)
                    if w2 is not None:
                        yield from rest(pos, w2)
                    if c is True:
                        break
            else:
                w2 = self.need(w, b_and([b_not(ww.cond()) for _, ww in ways]))
                if w2 is not None:
                    yield from rest(pos, w2)
        elif op is C.GROUPREF:
            sp = w.groups.get(av)
            if sp is None:
                return
            ln = sp[1] - sp[0]
            if pos + ln > n:
                return
            w2 = self.need(w, b_and([char_eq(x, y) for x, y in zip(a[sp[0]:sp[1]], a[pos:pos + ln])]))
            if w2 is not None:
                yield from rest(pos + ln, w2)
        elif op is C.GROUPREF_EXISTS:
            g, yes, no = av
            sub = yes if w.groups.get(g) is not None else no
            if sub is None:
                yield from rest(pos, w)
            else:
                yield from self.seq(sub.data, 0, pos, w, flags, rest)
        else:
            raise Unsupported("regex op %s" % op)

    def atomic(self, ops, pos, w, flags, rest):
        ways = list(self.seq(ops, 0, pos, w, flags, lambda p, ww: iter([(p, ww)])))
        earlier = []
        for p, ww in ways:
            c = ww.cond()
            w2 = ww
            for x in earlier:
                w2 = self.need(w2, b_not(x))
                if w2 is None:
                    break
            earlier.append(c)
            if w2 is not None:
                yield from rest(p, w2)

    def rep(self, ops, lo, hi, greedy, cnt, pos, last, w, flags, rest):
        more = cnt < hi and not (cnt >= lo and pos == last)

        def again(p, ww):
            return self.rep(ops, lo, hi, greedy, cnt + 1, p, pos, ww, flags, rest)
        if greedy:
            if more:
                yield from self.seq(ops, 0, pos, w, flags, again)
            if cnt >= lo:
                yield from rest(pos, w)
        else:
            if cnt >= lo:
                yield from rest(pos, w)
            if more:
                yield from self.seq(ops, 0, pos, w, flags, again)

    def at(self, av, pos, w, flags, rest):
        a, n = self.a, len(self.a)
        nl = CharSet(_NL, (C.LITERAL, 10))
        if av is C.AT_BEGINNING and not flags & _re.M or av is C.AT_BEGINNING_STRING:
            if pos == 0:
                yield from rest(pos, w)
        elif av is C.AT_BEGINNING:
            if pos == 0:
                yield from rest(pos, w)
            else:
                w2 = self.take(w, a[pos - 1], nl)
                if w2 is not None:
                    yield from rest(pos, w2)
        elif av is C.AT_END_STRING:
            if pos == n:
                yield from rest(pos, w)
        elif av is C.AT_END:
            if pos == n:
                yield from rest(pos, w)
            elif pos == n - 1 or flags & _re.M:
                w2 = self.take(w, a[pos], nl)
                if w2 is not None:
                    yield from rest(pos, w2)
        elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            wd = CharSet(_WD, (C.IN, [(C.CATEGORY, C.CATEGORY_WORD)]))
            nw = CharSet(ALL & ~_WD, (C.IN, [(C.CATEGORY, C.CATEGORY_NOT_WORD)]))
            for pw in (True, False):
                w2 = w
                if pos == 0:
                    if pw:
                        continue
                else:
                    w2 = self.take(w, a[pos - 1], wd if pw else nw)
                    if w2 is None:
                        continue
                nx = (not pw) if av is C.AT_BOUNDARY else pw
                if pos == n:
                    if nx:
                        continue
                else:
                    w2 = self.take(w2, a[pos], wd if nx else nw)
                    if w2 is None:
                        continue
                yield from rest(pos, w2)
        else:
            raise Unsupported("regex anchor %s" % av)

    def ways(self, a, pos, full=False):
        self.a = a

        def fin(p, w):
            if full and p != len(a):
                return
            yield p, w
        seen = []
        for p, w in self.seq(self.tree.data, 0, pos, Way({}, (), {}), self.flags, fin):
            yield p, w
            if not w.masks and not w.extra:
                return  # unconditional


def first_mask(ops, flags):
    """(mask of characters a match can start with, whether it can be empty)."""
    out = 0
    for op, av in ops:
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            return out | _charset(op, av, flags).mask, False
        if op is C.AT:
            continue
        if op is C.SUBPATTERN:
            m, e = first_mask(av[3].data, (flags | av[1]) & ~av[2])
        elif op is C.BRANCH:
            m, e = 0, False
            for alt in av[1]:
                m1, e1 = first_mask(alt.data, flags)
                m |= m1
                e |= e1
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            m, e = first_mask(av[2].data, flags)
            e = e or av[0] == 0
        elif op is C.ATOMIC_GROUP:
            m, e = first_mask(av.data, flags)
        else:
            return ALL, True
        out |= m
        if not e:
            return out, False
    return out, True


def _disjoint(u, v):
    for k, (ch, m) in u.masks.items():
        o = v.masks.get(k)
        if o is not None and o[1] & m == 0:
            return True
    return False


def _implied(w, ws):
    """w's condition is implied by an earlier way with the same result (masks contained)."""
    if w.extra:
        return False
    for u in ws:
        if u.extra:
            continue
        if all(k in w.masks and w.masks[k][1] & ~m == 0 for k, (ch, m) in u.masks.items()):
            return True
    return False


def _groups_of(ways):
    """Merge ways with equal results while priority cannot be affected."""
    out = []  # list of [result, [ways]]
    for p, w in ways:
        res = (p, tuple(sorted(((k, v) for k, v in w.groups.items() if k != "last"))), w.groups.get("last"))
        tgt = None
        for i in range(len(out) - 1, -1, -1):
            if out[i][0] == res:
                tgt = i
                break
            if w.extra or any(u.extra or not _disjoint(u, w) for u in out[i][1]):
                break
        if tgt is None:
            out.append([res, [w]])
        elif not _implied(w, out[tgt][1]):
            out[tgt][1].append(w)
    return out


def _cond(ws):
    if len(ws) == 1:
        return ws[0].cond(), None
    # all differing in one position only: one mask
    if not any(w.extra for w in ws):
        keys = set()
        for w in ws:
            keys |= set(w.masks)
        diff = []
        for k in keys:
            ms = {w.masks[k][1] if k in w.masks else None for w in ws}
            if len(ms) > 1:
                diff.append(k)
        if len(diff) <= 1:
            un = []
            for k in keys:
                if k in diff:
                    if any(k not in w.masks for w in ws):
                        continue
                    m = 0
                    for w in ws:
                        m |= w.masks[k][1]
                    un.append((ws[0].masks[k][0], m))
                else:
                    un.append(ws[0].masks[k])
            return (mk_unary(un) if un else True), None
        hull = []
        for k in keys:
            if all(k in w.masks for w in ws):
                m = 0
                for w in ws:
                    m |= w.masks[k][1]
                hull.append((ws[0].masks[k][0], m))
        return b_or([w.cond() for w in ws]), hull
    return b_or([w.cond() for w in ws]), None


def try_match(pat, a, pos, full=False):
    """First matching result at position pos: (end, groups dict) or None."""
    fm = pat.first
    if fm is not None:
        if pos >= len(a):
            return None
        at = a[pos]
        if type(at) is str:
            o = ord(at)
            if o < 128 and not fm >> o & 1:
                return None
        elif type(at) is SymChar and not Engine.cur.domof(at) & fm:
            return None
    key = []
    e = Engine.cur
    for x in a:
        if type(x) is str:
            key.append(x)
        elif type(x) is SymChar and x.free:
            key.append((x.key, e.domof(x)))
        else:
            key = None
            break
    if key is None:
        groups = _groups_of(list(Matcher(pat).ways(a, pos, full)))
    else:
        key = (pos, full, tuple(key))
        groups = pat._memo.get(key)
        if groups is None:
            groups = _groups_of(list(Matcher(pat).ways(a, pos, full)))
            if not any(w.extra for _, ws in groups for w in ws):
                if len(pat._memo) > 20000:
                    pat._memo.clear()
                pat._memo[key] = groups
    for res, ws in groups:
        c, hull = _cond(ws)
        if bool(c):
            if hull:
                e = Engine.cur
                for ch, mm in hull:
                    e.dom[ch.key] = e.domof(ch) & mm
            g = dict(res[1])
            if res[2] is not None:
                g["last"] = res[2]
            return res[0], g
    return None


class SymMatch:
    def __init__(self, pat, s, a, pos, start, end, groups):
        self.re, self.string, self._a, self.pos = pat, s, a, pos
        self._g = dict(groups)
        self._last = self._g.pop("last", None)
        self._g[0] = (start, end)
        self.endpos = len(a)

    @property
    def lastindex(self):
        return self._last

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self._last:
                return k
        return None

    @property
    def regs(self):
        return tuple(self._g.get(i, (-1, -1)) for i in range(self.re.groups + 1))

    def _idx(self, g):
        if isinstance(g, SymStr):
            g = str(g)
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        g = g.__index__()
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def _one(self, g, default=None):
        sp = self._g.get(self._idx(g))
        if sp is None:
            return default
        return mk(self._a[sp[0]:sp[1]])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def span(self, g=0):
        if has_fmt(self._a):
            raise Unsupported("position in a text with a formatted number")
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def expand(self, template):
        return _expand(self, template)

    def __bool__(self):
        return True

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _expand(m, template):
    if isinstance(template, SymStr):
        a = solid(template)
        if any(type(x) is SymChar and amask(x) >> 92 & 1 for x in a):
            template = str(template)
        elif not any(type(x) is str and x == "\\" for x in a):
            return template
        else:
            template = str(template)
    if "\\" not in template:
        return template
    pt = P.parse_template(template, m.re.real)
    out = []
    for item in pt if isinstance(pt, list) else [pt]:
        if isinstance(item, str):
            out.extend(item)
        elif isinstance(item, int):
            out.extend(atoms_of(m._one(item, "") or ""))
        else:  # pragma: no cover
            raise Unsupported("template")
    return mk(out)


def _concrete(s):
    return type(s) is str or (isinstance(s, str) and not isinstance(s, SymStr))


class SymPattern:
    """A compiled pattern usable on concrete and symbolic text."""

    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymPattern):
            pattern = pattern.real
        if isinstance(pattern, SymStr):
            pattern = str(pattern)
        self.real = _re.compile(pattern, flags)
        self.pattern = self.real.pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = self.real.groupindex
        self._t = None
        self._fm = False
        self._memo = {}
        self._cs = {}

    @property
    def first(self):
        f = self._fm
        if f is False:
            m, e = first_mask(self._tree.data, self.flags)
            f = self._fm = None if e else m
        return f

    @property
    def _tree(self):
        if self._t is None:
            self._t = P.parse(self.pattern, self.flags & ~_re.U)
        return self._t

    def __eq__(self, o):
        return isinstance(o, SymPattern) and self.real == o.real

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _chk(self, s):
        if not isinstance(s, (str, SymStr)):
            raise TypeError("expected string or bytes-like object, got %r" % type(s).__name__)

    def _do(self, s, pos, endpos, how):
        self._chk(s)
        try:
            return self._do1(s, self._atoms(s), pos, endpos, how)
        except NeedSolid:
            return self._do1(s, solid(s), pos, endpos, how)

    def _atoms(self, s):
        a = atoms_of(s)
        if has_fmt(a) and self._tree.getwidth()[0] == 0:
            return solid(s)
        return a

    def _do1(self, s, a, pos, endpos, how):
        if (pos or endpos is not None) and has_fmt(a):
            a = solid(s)
        if endpos is not None:
            a = a[:endpos]
        if isinstance(s, SymStr) and how != "search":
            r = try_match(self, a, pos, how == "full")
            return r and SymMatch(self, s, a, pos, pos, r[0], r[1])
        for i in range(pos, len(a) + 1):
            r = try_match(self, a, i)
            if r:
                return SymMatch(self, s, a, pos, i, r[0], r[1])
        return None

    def _run(self, s, pos, endpos, how):
        self._chk(s)
        if not isinstance(s, SymStr):
            f = {"match": self.real.match, "full": self.real.fullmatch, "search": self.real.search}[how]
            return f(s, pos) if endpos is None else f(s, pos, endpos)
        return self._do(s, pos, endpos, how)

    def match(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, "match")

    def fullmatch(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, "full")

    def search(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, "search")

    def finditer(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.real.finditer(s, pos) if endpos is None else self.real.finditer(s, pos, endpos)
        return iter(self._iter(s, pos))

    def _iter(self, s, pos=0, limit=None):
        """Matches of the whole text as a list."""
        try:
            return list(islice(self._iter1(s, pos, solid(s) if pos else self._atoms(s)), limit))
        except NeedSolid:
            return list(islice(self._iter1(s, pos, solid(s)), limit))

    def _iter1(self, s, pos, a):
        i, last_end = pos, -1
        while i <= len(a):
            r = None
            for j in range(i, len(a) + 1):
                r = try_match(self, a, j)
                if r and r[0] == j and j == last_end:
                    # an empty match may not touch the previous match: look for a longer one here
                    r = self._nonempty(a, j)
                if r:
                    break
            if not r:
                return
            yield SymMatch(self, s, a, pos, j, r[0], r[1])
            last_end = r[0]
            i = r[0]
            if r[0] == j:
                # after an empty match a non-empty one may start here
                r2 = self._nonempty(a, j)
                if r2:
                    yield SymMatch(self, s, a, pos, j, r2[0], r2[1])
                    last_end = i = r2[0]
                else:
                    i = j + 1

    def _nonempty(self, a, pos):
        m = Matcher(self)
        for res, ws in _groups_of([(p, w) for p, w in m.ways(a, pos) if p != pos]):
            c, _ = _cond(ws)
            if bool(c):
                g = dict(res[1])
                if res[2] is not None:
                    g["last"] = res[2]
                return res[0], g
        return None

    def findall(self, s, pos=0, endpos=None):
        if not isinstance(s, SymStr):
            return self.real.findall(s, pos) if endpos is None else self.real.findall(s, pos, endpos)
        out = []
        for m in self._iter(s, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.groups("")[0])
            else:
                out.append(m.groups(""))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        self._chk(s)
        if isinstance(count, core.SymInt):
            count = count.__index__()
        if not isinstance(s, SymStr):
            if callable(repl):
                hit = []

                def wrap(m):
                    r = repl(m)
                    if isinstance(r, SymStr):
                        hit.append(r)
                        return chr(0xE000 + len(hit) - 1)
                    return r
                t, n = self.real.subn(wrap, s, count)
                if not hit:
                    return t, n
                out = []
                for c in t:
                    o = ord(c) - 0xE000
                    out.extend(atoms_of(hit[o]) if 0 <= o < len(hit) else c)
                return mk(out), n
            if not isinstance(repl, SymStr):
                return self.real.subn(repl, s, count)
        ms = self._iter(SymStr(tuple(atoms_of(s))), 0, count or None)
        a = ms[0]._a if ms else atoms_of(s)
        out, last, n = [], 0, 0
        for m in ms:
            b, e = m._g[0]
            out.extend(a[last:b])
            out.extend(atoms_of(repl(m) if callable(repl) else _expand(m, repl)))
            last = e
            n += 1
            if count and n >= count:
                break
        out.extend(a[last:])
        return mk(out), n

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.real.split(s, maxsplit)
        ms = self._iter(s, 0, maxsplit or None)
        a = ms[0]._a if ms else atoms_of(s)
        out, last, n = [], 0, 0
        for m in ms:
            if maxsplit and n >= maxsplit:
                break
            b, e = m._g[0]
            out.append(mk(a[last:b]))
            out.extend(m.groups())
            last = e
            n += 1
        out.append(mk(a[last:]))
        return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        k = (pattern.pattern, pattern.flags)
        p = _cache.get(k)
        if p is None:
            p = _cache[k] = SymPattern(pattern)
        return p
    if isinstance(pattern, SymStr):
        # only literal text may be symbolic in a pattern; settle it by enumeration
        pattern = str(pattern)
    k = (pattern, int(flags))
    p = _cache.get(k)
    if p is None:
        p = _cache[k] = SymPattern(pattern, flags)
    return p


def module_fn(name):
    def fn(pattern, *args, **kw):
        flags = kw.pop("flags", 0)
        p = compile(pattern, 0) if not isinstance(pattern, str) else None
        nargs = {"match": 1, "fullmatch": 1, "search": 1, "findall": 1, "finditer": 1, "split": 2, "sub": 3, "subn": 3}[name]
        if len(args) > nargs:
            flags = args[nargs]
            args = args[:nargs]
        if p is None or flags:
            p = compile(pattern, flags)
        return getattr(p, name)(*args, **kw)
    fn.__name__ = name
    return fn
