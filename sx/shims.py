"""Run-time support called from the instrumented code (`_sx_` in its globals)."""
from __future__ import annotations

import builtins
import calendar
import copy as _copy
import datetime as _dt
import functools
import json as _json
import math
import operator
import re as _re
import string as _string
import types

from . import core, dt, regex
from .core import (Control, Engine, Fmt, SymBool, SymFloat, SymInt, Unsupported, b_and, b_not, b_or, sym)
from .dt import SymDT, SymTD, SymDate
from .regex import SymMatch, SymPattern
from .sstr import (SymStr, atoms_of, fmt_value, int_atoms, mk, parse_float, parse_int, s_join, s_len, solid)

BUILTIN = types.BuiltinFunctionType
WRAPS = (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType,
         types.MethodWrapperType, types.ClassMethodDescriptorType)


def is_sym(x):
    return isinstance(x, core.SYM)


def deep_sym(x, depth=4):
    if isinstance(x, core.SYM):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return len(x) < 2000 and any(deep_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return len(x) < 2000 and any(deep_sym(v, depth - 1) for v in x.values()) or any(is_sym(k) for k in x)
    return False


def realize(x):
    """Fork until the value is concrete."""
    e = Engine.cur
    if isinstance(x, SymStr):
        return x.real()
    if isinstance(x, SymInt):
        return e.realize_int(x)
    if isinstance(x, SymFloat):
        return x.realize()
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (SymDT, SymTD)):
        return x.real()
    if isinstance(x, list):
        return [realize(v) for v in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(realize(v) for v in x)
    if type(x) is dict:
        return {realize(k): realize(v) for k, v in x.items()}
    return x


# --------------------------------------------------------------------------- text
def s_str(x):
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymInt):
        return mk(int_atoms(x))
    if isinstance(x, SymFloat):
        return str(realize(x)) if x.kind == "int" else mk((Fmt(x, None),))
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (SymDT,)):
        return x.text()
    if isinstance(x, SymTD):
        return str(x.real())
    if isinstance(x, BaseException):
        if type(x).__str__ in (BaseException.__str__, Exception.__str__):
            if len(x.args) == 1:
                return s_str(x.args[0])
            return s_repr(x.args) if x.args else ""
    if isinstance(x, (list, tuple, dict, set, frozenset)) and type(x).__str__ is object.__str__:
        return s_repr(x)
    f = type(x).__str__
    if isinstance(f, types.FunctionType):
        r = f(x)
        if not isinstance(r, (str, SymStr)):
            raise TypeError("__str__ returned non-string (type %s)" % type(r).__name__)
        return r
    if isinstance(f, functools.partialmethod) or type(f).__str__ is None:
        return str(x)
    if f is object.__str__:
        return s_repr(x)
    return str(x)


def s_repr(x):
    if isinstance(x, SymStr):
        bad = core.mask_of("'\\\"") | ((1 << 32) - 1) | 1 << 127
        for at in x.a:
            if type(at) is core.SymChar and Engine.cur.domof(at) & bad:
                return repr(x.real())
            if type(at) is str and (ord(at) >= 127 or bad >> ord(at) & 1):
                return repr(x.real())
        return mk(("'",) + x.a + ("'",))
    if isinstance(x, core.SYM):
        if isinstance(x, (SymDT, SymTD)):
            return repr(x.real())
        return s_str(x)
    if type(x) in (list, tuple):
        o, c = "[]" if type(x) is list else "()"
        r = s_join(", ", [s_repr(v) for v in x])
        if type(x) is tuple and len(x) == 1:
            r = r + ","
        return o + r + c
    if type(x) is dict:
        return "{" + s_join(", ", [s_repr(k) + ": " + s_repr(v) for k, v in x.items()]) + "}"
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    return repr(x)


def s_format1(x, spec):
    if isinstance(x, SymDT):
        return x.strftime(spec) if spec else x.text()
    if isinstance(x, (SymStr, SymInt, SymFloat, SymBool)):
        if not spec:
            return s_str(x)
        return fmt_value(x, spec)
    if isinstance(spec, SymStr):
        spec = spec.real()
    f = type(x).__format__
    if f is object.__format__:
        if spec:
            raise TypeError("unsupported format string passed to %s.__format__" % type(x).__name__)
        return s_str(x)
    if isinstance(f, types.FunctionType):
        return f(x, spec)
    if isinstance(x, (list, tuple, dict)):
        return s_str(x)
    return format(x, spec)


def conv(x, c):
    if c == "r":
        return s_repr(x)
    if c == "s":
        return s_str(x)
    if c == "a":
        return ascii(realize(x))
    return x


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, c, spec = p
            if c != -1:
                v = conv(v, chr(c))
            out.append(s_format1(v, spec if isinstance(spec, (str, SymStr)) else ""))
    return s_join("", out)


class _Fmtr(_string.Formatter):
    pass


def s_format(fmt, args, kw):
    """str.format"""
    fr = _Fmtr()
    auto = [0]

    def go(f, depth):
        out = []
        for lit, field, spec, cv in fr.parse(f):
            if lit:
                out.append(lit)
            if field is not None:
                if field == "" or field[0] in ".[":
                    field = str(auto[0]) + field
                    auto[0] += 1
                first, rest = __import__("_string").formatter_field_name_split(field)
                if isinstance(first, int):
                    if first >= len(args):
                        raise IndexError("Replacement index %d out of range for positional args tuple" % first)
                    v = args[first]
                else:
                    v = kw[first]
                for is_attr, i in rest:
                    v = getattr(v, i) if is_attr else getitem(v, i)
                if cv:
                    v = conv(v, cv)
                out.append(s_format1(v, go(spec, depth + 1) if spec else ""))
        return s_join("", out)
    return go(fmt, 0)


def s_percent(fmt, args):
    if isinstance(fmt, SymStr):
        fmt = fmt.real()
    if not isinstance(fmt, str):
        return fmt % args
    if not deep_sym(args) and not _userobj(args):
        return fmt % args
    vals = list(args) if type(args) is tuple else [args]
    mapping = args if isinstance(args, dict) else None
    out, i, last = [], 0, 0
    for m in _re.finditer(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])", fmt):
        out.append(fmt[last:m.start()])
        last = m.end()
        key, flags, width, prec, t = m.groups()
        if t == "%":
            out.append("%")
            continue
        if key is not None:
            v = mapping[key]
        else:
            if width == "*":
                width = str(realize(vals[i]))
                i += 1
            if i >= len(vals):
                raise TypeError("not enough arguments for format string")
            v = vals[i]
            i += 1
        if t in "sr":
            s = s_str(v) if t == "s" else s_repr(v)
            if prec:
                s = getitem(s, slice(None, int(prec)))
            if width:
                s = SymStr(atoms_of(s))
                s = s.ljust(int(width)) if "-" in flags else s.rjust(int(width))
                s = mk(s.a) if isinstance(s, SymStr) else s
            out.append(s)
        elif t in "di":
            if isinstance(v, SymFloat):
                v = call(int, v)
            if isinstance(v, (str, SymStr)):
                raise TypeError("%d format: a real number is required, not str")
            if isinstance(v, SymInt) and not flags.strip("0") and not prec:
                out.append(fmt_value(v, ("0" if "0" in flags else "") + (width or "") + "d"))
            else:
                out.append(("%" + flags + (width or "") + ("." + prec if prec else "") + t) % realize(v))
        elif t in "fFeEgG" and isinstance(v, (SymFloat, SymInt)) and not flags.strip("0"):
            out.append(fmt_value(v if isinstance(v, SymFloat) else SymFloat.of(v),
                                 ("0" if "0" in flags else "") + (width or "") + "." + (prec or "6") + t))
        else:
            out.append(("%" + flags + (width or "") + ("." + prec if prec else "") + t) % (realize(v),))
    if mapping is None and i < len(vals):
        raise TypeError("not all arguments converted during string formatting")
    out.append(fmt[last:])
    return s_join("", out)


def _userobj(args):
    vs = args if type(args) is tuple else (args,)
    return any(isinstance(type(v).__str__, types.FunctionType) for v in vs)


# --------------------------------------------------------------------------- JSON
class JStr(SymStr):
    """json.dumps text whose tree is remembered."""

    __slots__ = ("tree",)


def _jtext(x, sort, ind):
    if isinstance(x, (str,)):
        return _json.dumps(x)
    if isinstance(x, SymStr):
        bad = core.mask_of('"\\') | ((1 << 32) - 1) | 1 << 127
        out = ['"']
        for at in x.a:
            if type(at) is core.SymChar and Engine.cur.domof(at) & bad:
                return _json.dumps(x.real())
            if type(at) is str:
                out.extend(_json.dumps(at)[1:-1])
            else:
                out.append(at)
        return mk(out + ['"'])
    if isinstance(x, SymBool):
        return "true" if x else "false"
    if isinstance(x, (SymInt, SymFloat)):
        return s_str(x)
    if x is None or isinstance(x, (bool, int, float)):
        return _json.dumps(x)
    if isinstance(x, (list, tuple)):
        return "[" + s_join(", ", [_jtext(v, sort, ind) for v in x]) + "]"
    if isinstance(x, dict):
        items = []
        ks = sorted(x) if sort else x
        for k in ks:
            items.append(_jtext(_jkey(k), sort, ind) + ": " + _jtext(x[k], sort, ind))
        return "{" + s_join(", ", items) + "}"
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def _jkey(k):
    if isinstance(k, (str, SymStr)):
        return k
    if k is None or isinstance(k, (bool, int, float)):
        return _json.loads(_json.dumps({k: 0}).replace(": 0}", ": 0}")) and next(iter(_json.loads(_json.dumps({k: 0}))))
    raise TypeError("keys must be str, int, float, bool or None, not %s" % type(k).__name__)


def _jcopy(x):
    if isinstance(x, (list, tuple)):
        return [_jcopy(v) for v in x]
    if isinstance(x, dict):
        return {_jkey(k): _jcopy(v) for k, v in x.items()}
    if isinstance(x, SymBool):
        return bool(x)
    if x is None or isinstance(x, (bool, int, float, str, SymStr, SymInt, SymFloat)):
        if isinstance(x, SymFloat) and x.kind == "int":
            return x
        return x
    raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)


def json_dumps(obj, **kw):
    if kw.get("default") is not None or kw.get("cls") is not None:
        return _json.dumps(realize(obj), **kw)
    if not deep_sym(obj, 12):
        return _json.dumps(obj, **kw)
    if any(k in kw for k in ("indent", "separators", "ensure_ascii")):
        tree = _jcopy(obj)
        j = JStr(tuple("<json>"))
        j.tree = tree
        return j
    tree = _jcopy(obj)
    t = _jtext(obj, kw.get("sort_keys"), None)
    j = JStr(atoms_of(t))
    j.tree = tree
    return j


def json_loads(s, **kw):
    if isinstance(s, JStr):
        return _jcopy(s.tree)
    if isinstance(s, SymStr):
        return _json.loads(s.real(), **kw)
    return _json.loads(s, **kw)


# --------------------------------------------------------------------------- containers
def _key_fork(keys, k):
    """The key of a finite collection equal to the symbolic key, or None."""
    for c in keys:
        r = k == c
        if r is NotImplemented or r is False:
            continue
        if bool(r):
            return True, c
    return False, None


def d_find(d, k):
    if not is_sym(k):
        return (k in d), k
    if isinstance(k, (SymInt, SymBool)):
        pass
    return _key_fork(list(d.keys() if isinstance(d, dict) else d), k)


def contains(x, c):
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(c, str):
        if isinstance(x, SymStr):
            return SymStr(tuple(c)).contains(x)
        return x in c
    if is_sym(x):
        if isinstance(c, (dict, set, frozenset, type({}.keys()))):
            ok, _ = _key_fork(list(c), x)
            return ok
        if isinstance(c, range):
            if c.step == 1:
                return b_and([x >= c.start, x < c.stop])
            return _key_fork(list(c), x)[0]
        if isinstance(c, (list, tuple)):
            return b_or([r for r in (x == y for y in c) if r is not NotImplemented])
        if isinstance(c, types.MappingProxyType) or hasattr(c, "keys") and hasattr(c, "__getitem__"):
            return _key_fork(list(c.keys()), x)[0]
    return x in c


def not_in(x, c):
    return b_not(contains(x, c))


def getitem(o, k):
    if isinstance(k, core.SYM):
        if isinstance(o, dict):
            ok, kk = _key_fork(list(o), k)
            if not ok:
                miss = getattr(type(o), "__missing__", None)
                if miss:
                    return o[realize(k)]
                raise KeyError(k)
            return o[kk]
        if isinstance(o, (list, tuple, str)) and isinstance(k, (SymInt, SymBool)):
            return o[k.__index__()]
        if isinstance(o, types.MappingProxyType):
            ok, kk = _key_fork(list(o), k)
            if not ok:
                raise KeyError(k)
            return o[kk]
    elif isinstance(k, slice) and any(isinstance(v, SymInt) for v in (k.start, k.stop, k.step)):
        k = slice(*(v.__index__() if isinstance(v, SymInt) else v for v in (k.start, k.stop, k.step)))
    return o[k]


def mod(a, b):
    if isinstance(a, (str, SymStr)):
        return s_percent(a, b)
    return a % b


def is_(a, b):
    """`is` between values: interned singletons only."""
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a if b else ~a
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b if a else ~b
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if a is b:
            return True
        # single characters (and the empty string) are interned by the interpreter
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and len(a) == len(b) == 1:
            return a == b
        return False
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)) and not isinstance(a, bool) and not isinstance(b, bool):
            # CPython caches small integers
            return b_and([a == b, a >= -5, a <= 256])
        return False
    return a is b


def is_not(a, b):
    return b_not(is_(a, b))


# --------------------------------------------------------------------------- calls
def c_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SymStr):
        return parse_int(x, *(realize(v) for v in a[1:]), **k)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymFloat):
        return x.__trunc__()
    f = getattr(type(x), "__int__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return int(*a, **k)


def c_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, SymStr):
        return parse_float(x)
    if isinstance(x, (SymInt, SymBool)):
        return SymFloat.of(x)
    if isinstance(x, SymFloat):
        return x if x.kind == "float" else SymFloat(x.n, x.ops + (float,), x.dir, x.lin)
    f = getattr(type(x), "__float__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return float(x)


def c_str(*a, **k):
    return s_str(a[0]) if len(a) == 1 and not k else str(*a, **k)


def c_bool(*a):
    return bool(*a)


def c_len(x):
    if isinstance(x, SymStr):
        return s_len(x)
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


_ALIAS = {str: (SymStr,), int: (SymInt, SymBool), float: (), bool: (SymBool,), _re.Match: (SymMatch,),
          _re.Pattern: (SymPattern,), _dt.datetime: (SymDT,), _dt.date: (SymDT,), _dt.timedelta: (SymTD,),
          object: ()}


def type_of(x):
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymFloat):
        return float if x.kind == "float" else int
    if isinstance(x, SymDate):
        return _dt.date
    if isinstance(x, SymDT):
        return _dt.datetime
    if isinstance(x, SymTD):
        return _dt.timedelta
    if isinstance(x, SymMatch):
        return _re.Match
    if isinstance(x, SymPattern):
        return _re.Pattern
    return type(x)


def c_isinstance(x, c):
    if isinstance(x, core.SYM) or isinstance(x, (SymMatch, SymPattern)):
        t = type_of(x)
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if isinstance(k, tuple):
                if c_isinstance(x, k):
                    return True
            elif isinstance(k, type) and issubclass(t, k) or k is t:
                return True
            elif isinstance(k, types.UnionType) and issubclass(t, k):
                return True
            elif not isinstance(k, type):
                try:
                    if issubclass(t, k):
                        return True
                except TypeError:
                    o = getattr(k, "__origin__", None)
                    if o is not None and issubclass(t, o):
                        return True
        return False
    return isinstance(x, c)


def c_type(*a):
    return type_of(a[0]) if len(a) == 1 else type(*a)


def c_print(*a, **k):
    if k.get("file") is None:
        e = Engine.cur
        if e is not None:
            e.printed.append([s_str(v) for v in a])


def c_round(x, nd=None):
    if isinstance(x, (SymInt, SymFloat)):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def c_range(*a):
    return range(*(v.__index__() if isinstance(v, (SymInt, SymBool)) else v for v in a))


def c_repr(x):
    return s_repr(x)


def c_format(x, spec=""):
    return s_format1(x, spec)


def c_ord(x):
    if isinstance(x, SymStr):
        a = solid(x)
        if len(a) != 1:
            raise TypeError("ord() expected a character")
        at = a[0]
        if type(at) is str:
            return ord(at)
        d = Engine.cur.domof(at)
        return SymInt(at.expr, (d & -d).bit_length() - 1, d.bit_length() - 1, at.deps)
    return ord(x)


def c_chr(x):
    return chr(x.__index__() if isinstance(x, SymInt) else x)


def c_hash(x):
    return hash(x)


def c_divmod(a, b):
    if isinstance(a, SymInt):
        return a // b, a % b
    return divmod(a, b)


def c_abs(x):
    return abs(x)


def c_pow(*a):
    return pow(*[realize(v) for v in a]) if len(a) == 3 else a[0] ** a[1]


def c_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def _wrapfn(f):
    """A builtin passed as a callback goes through call()."""
    if f is None or isinstance(f, types.FunctionType):
        return f
    if isinstance(f, type) and f not in TABLE:
        return f
    return lambda *a, **k: call(f, *a, **k)


def c_map(f, *its):
    g = _wrapfn(f)
    return (g(*a) for a in zip(*its))


def c_filter(f, it):
    if f is None:
        return (x for x in it if x)
    g = _wrapfn(f)
    return (x for x in it if g(x))


def _keyed(fn):
    def h(*a, **k):
        if k.get("key") is not None:
            k["key"] = _wrapfn(k["key"])
        return fn(*a, **k)
    return h


def c_reduce(f, *a):
    return functools.reduce(_wrapfn(f), *a)


def c_getattr(o, n, *d):
    return getattr(o, realize(n), *d)


def c_setattr(o, n, v):
    return setattr(o, realize(n), v)


def c_hasattr(o, n):
    return hasattr(o, realize(n))


def _floorceil(name):
    fn = getattr(math, name)
    meth = {"floor": "__floor__", "ceil": "__ceil__", "trunc": "__trunc__"}[name]

    def h(x):
        if isinstance(x, SymFloat):
            return getattr(x, meth)()
        if isinstance(x, SymInt):
            return x
        return fn(x)
    return h


def c_isclose(a, b, **k):
    return math.isclose(realize(a), realize(b), **k)


def c_isnan(x):
    if isinstance(x, (SymFloat, SymInt)):
        return False
    return math.isnan(x)


def c_fabs(x):
    return abs(c_float(x))


def c_tuple(*a):
    return tuple(*a)


def c_datetime(*a, **k):
    if any(is_sym(v) for v in a) or any(is_sym(v) for v in k.values()):
        return dt.make(*a, **k)
    return _dt.datetime(*a, **k)


def c_date(*a, **k):
    if any(is_sym(v) for v in a) or any(is_sym(v) for v in k.values()):
        t = dt.make(*a, **k)
        return SymDate(t.year, t.month, t.day)
    return _dt.date(*a, **k)


def c_td(*a, **k):
    if any(is_sym(v) for v in a) or any(is_sym(v) for v in k.values()):
        return dt.td(*a, **k)
    return _dt.timedelta(*a, **k)


def c_monthrange(y, m):
    return dt.monthrange(y, m) if is_sym(y) or is_sym(m) else calendar.monthrange(y, m)


def c_isleap(y):
    return dt.leap(y)


def c_compile(p, flags=0):
    return regex.compile(p, flags)


def c_escape(p):
    return _re.escape(realize(p))


TABLE = {
    int: c_int, float: c_float, str: c_str, bool: c_bool, len: c_len, isinstance: c_isinstance, type: c_type,
    print: c_print, round: c_round, range: c_range, repr: c_repr, format: c_format, ord: c_ord, chr: c_chr,
    hash: c_hash, divmod: c_divmod, abs: c_abs, pow: c_pow, sum: c_sum, map: c_map, filter: c_filter,
    sorted: _keyed(sorted), min: _keyed(min), max: _keyed(max), functools.reduce: c_reduce,
    getattr: c_getattr, setattr: c_setattr, hasattr: c_hasattr,
    math.floor: _floorceil("floor"), math.ceil: _floorceil("ceil"), math.trunc: _floorceil("trunc"),
    math.isclose: c_isclose, math.isnan: c_isnan, math.fabs: c_fabs,
    _dt.datetime: c_datetime, _dt.date: c_date, _dt.timedelta: c_td,
    calendar.monthrange: c_monthrange, calendar.isleap: c_isleap,
    _json.dumps: json_dumps, _json.loads: json_loads,
    _re.compile: c_compile, _re.escape: c_escape,
    operator.contains: lambda c, x: contains(x, c), operator.getitem: getitem, operator.mod: mod,
    operator.eq: lambda a, b: a == b, operator.ne: lambda a, b: a != b, operator.not_: lambda a: not a,
}
for _n in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
    TABLE[getattr(_re, _n)] = regex.module_fn(_n)

_PASS = {list, tuple, dict, set, frozenset, enumerate, zip, any, all, iter, next, reversed, callable, issubclass,
         id, super, object, property, classmethod, staticmethod, slice, vars, dir, _copy.copy, _copy.deepcopy}


def _dict_method(d, name, a, k):
    key = a[0]
    ok, kk = d_find(d, key)
    if name == "get":
        return d[kk] if ok else (a[1] if len(a) > 1 else k.get("default"))
    if name == "pop":
        if ok:
            return d.pop(kk)
        if len(a) > 1:
            return a[1]
        raise KeyError(key)
    if name == "setdefault":
        if ok:
            return d[kk]
        return d.setdefault(key, *a[1:])
    if name in ("__contains__", "has_key"):
        return ok
    if name == "__getitem__":
        if ok:
            return d[kk]
        raise KeyError(key)
    return getattr(d, name)(*a, **k)


_STR_PASS = {"format", "join", "replace", "split", "rsplit", "startswith", "endswith", "find", "rfind", "index",
             "rindex", "count", "partition", "rpartition", "strip", "lstrip", "rstrip", "removeprefix",
             "removesuffix", "__contains__", "__eq__", "__add__", "__getitem__", "ljust", "rjust", "zfill", "center",
             "__mod__", "__ne__", "__lt__", "__len__"}


def call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        return TABLE.get(f, f)(*a, **k)
    if t is types.MethodType:
        return f(*a, **k)
    try:
        h = TABLE.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if t is type or isinstance(f, type):
        if f in _PASS or isinstance(f, type) and f.__module__ != "builtins":
            if f.__module__ in ("collections",) and f.__name__ in ("Counter",):
                return f(*a, **k)
            return f(*a, **k)
        if any(is_sym(v) for v in a):
            a = tuple(realize(v) for v in a)
        return f(*a, **k)
    if t is BUILTIN or t in WRAPS:
        s = getattr(f, "__self__", None)
        name = f.__name__
        if isinstance(s, str):
            if name == "format":
                if deep_sym(a) or deep_sym(k) or any(_userobj((v,)) for v in a) or any(
                        _userobj((v,)) for v in k.values()):
                    return s_format(s, a, k)
                return f(*a, **k)
            if name == "join":
                items = list(a[0])
                return s_join(s, items)
            if any(is_sym(v) for v in a) or any(
                    isinstance(v, tuple) and any(is_sym(w) for w in v) for v in a):
                if name in _STR_PASS:
                    r = getattr(SymStr(tuple(s)), name)(*a, **k)
                    return mk(r.a) if isinstance(r, SymStr) else _fix(r)
                return f(*[realize(v) for v in a], **k)
            return f(*a, **k)
        if isinstance(s, dict):
            if a and is_sym(a[0]):
                return _dict_method(s, name, a, k)
            return f(*a, **k)
        if isinstance(s, (list, set, frozenset, tuple)) or isinstance(s, types.GeneratorType):
            if name == "sort" and k.get("key") is not None:
                k["key"] = _wrapfn(k["key"])
            if isinstance(s, (set, frozenset)) and a and is_sym(a[0]) and name == "__contains__":
                return contains(a[0], s)
            return f(*a, **k)
        if s is _dt.datetime or isinstance(s, type) and issubclass(s, _dt.datetime):
            if name in ("utcnow", "today"):
                return dt.wrap_now(name == "today")
            if name == "now":
                tz = a[0] if a else k.get("tz")
                if tz is None:
                    return dt.wrap_now(True)
                n = dt.wrap_now()
                off = tz.utcoffset(None)
                return (n + off if off else n).replace(tzinfo=tz)
            if name == "strptime":
                return dt.strptime(*a, **k)
            if name == "combine" and deep_sym(a):
                d, tm = a[:2]
                tm = realize(tm)
                return dt.make(d.year, d.month, d.day, tm.hour, tm.minute, tm.second)
            if name == "fromisoformat" and deep_sym(a):
                tx = SymStr(atoms_of(a[0]))
                if len(tx) == 19:
                    return dt.strptime(mk(tx.a[:10] + (" ",) + tx.a[11:]), "%Y-%m-%d %H:%M:%S")
                return f(realize(a[0]))
        elif s is _dt.date and name == "today":
            n = dt.wrap_now(True)
            return SymDate(n.year, n.month, n.day) if isinstance(n, SymDT) else n.date()
        elif isinstance(s, _dt.datetime) and name == "replace" and (deep_sym(a) or deep_sym(k)):
            return dt.lift(s).replace(*a, **k)
        elif isinstance(s, _dt.datetime) and name in ("__add__", "__sub__", "__eq__", "__lt__"):
            return getattr(dt.lift(s), name)(*a)
        elif isinstance(s, _re.Pattern):
            p = regex.compile(s)
            return getattr(p, name)(*a, **k)
        elif s is not None and isinstance(s, types.ModuleType) and s is builtins and f not in _PASS:
            if any(is_sym(v) for v in a):
                a = tuple(realize(v) for v in a)
            return f(*a, **k)
        # unbound str / dict / datetime methods
        if s is None and a:
            o = getattr(f, "__objclass__", None)
            if o is str:
                recv = a[0] if isinstance(a[0], SymStr) else a[0]
                return call(getattr(recv, name), *a[1:], **k)
            if o is dict:
                return call(getattr(a[0], name), *a[1:], **k)
            if o is _dt.datetime or o is _dt.date:
                return call(getattr(a[0], name), *a[1:], **k)
        if s is str and name == "maketrans":
            return f(*a, **k)
        if f in _PASS:
            return f(*a, **k)
        if any(deep_sym(v) for v in a) or any(deep_sym(v) for v in k.values()):
            if isinstance(s, core.SYM):
                return f(*a, **k)
            mod_ = getattr(f, "__module__", None)
            if mod_ in ("math", "time", "locale", "_operator", "operator"):
                return f(*[realize(v) for v in a], **{q: realize(v) for q, v in k.items()})
            return f(*a, **k)
        return f(*a, **k)
    return f(*a, **k)


def _fix(r):
    return r
