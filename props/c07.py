"""C07: runway visual range groups."""
from props.common import *

BOUNDS = ("one token of 1..7 arbitrary characters over [A-Z0-9/+-], or R and 1..18 such characters (the first not E), other than "
          "runway states (C08), after the header of a METAR; order: three such groups with arbitrary 4-digit ranges and a fourth one. Quick "
          "tier: the R tokens of 14+ characters start with R, 0 and a digit")
STATE = re.compile(r"R(?:[0-9]{2}[RLC]?)?/(?:[0-9/]{2}(?:[0-9][0-9]|//){2}|SNOCLO|CLRD//)")
RVR = re.compile(r"R([0-9]{2})([RLC])?/([MP])?([0-9]{2,4})(?:V([MP])?([0-9]{2,4}))?(FT)?([NDU])?")
SIDE = {"R": "right", "L": "left", "C": "center"}
LIMIT = {"M": "below of", "P": "above of"}
TREND = {"N": "no change", "U": "increasing", "D": "decreasing"}


def cases(tier):
    out = []
    for n in range(1, 8):
        out.append({"name": "any len %d" % n, "kind": "any", "n": n})
    for n in range(2, 20):
        out.append({"name": "R len %d" % n, "kind": "r", "n": n, "few": tier == "quick" and n > 13})
    out.append({"name": "order", "kind": "order"})
    return out


def runway_name(digits, side):
    if side is not None:
        return digits + " " + SIDE[side]
    if digits == "88":
        return "all runways"
    if digits == "99":
        return "repeated"
    return digits


def rvr_ref(tok):
    m = RVR.fullmatch(tok)
    if not m:
        return None
    f = FT if m.group(7) is not None else 1
    return (runway_name(m.group(1), m.group(2)), get(LIMIT, m.group(3)), dist(m.group(4), f), get(LIMIT, m.group(5)),
            dist(m.group(6), f), get(TREND, m.group(8)))


def get(t, k):
    return None if k is None else t[k]


def dist(d, f):
    if d is None:
        return None
    if f == 1 and d == "9999":
        return 10000
    return int(d) * f


def check_rvr(h, x, code, ref, lab="rvr"):
    name, lo, low, hi, high, trend = ref
    h.eq(x.code, code, lab + " code")
    h.eq(x.name, name, lab + " name")
    h.eq(x.trend, trend, lab + " trend")
    d = x.as_dict()
    h.eq(d["rvr_low"], lo, lab + " low marker")
    h.eq(d["rvr_high"], hi, lab + " high marker")
    for k, want in (("low", low), ("high", high)):
        h.close(getattr(x, k + "_in_meters"), want, lab + " " + k + " m")
        h.close(getattr(x, k + "_in_kilometers"), times(want, Fraction(1, 1000)), lab + " " + k + " km")
        h.close(getattr(x, k + "_in_sea_miles"), times(want, Fraction(1, 1852)), lab + " " + k + " nautical miles")
        h.close(getattr(x, k + "_in_feet"), times(want, 1 / FT), lab + " " + k + " ft")


def run(h, c):
    if c["kind"] == "order":
        toks = ["R12/" + h.digits("a", 4), "R30L/P" + h.digits("b", 4) + "U", "R88/" + h.digits("c", 4) + "V" + h.digits("d", 4)]
        r = h.Metar(MH + " ".join(toks) + " R01/0400")
        h.eq(r.runway_ranges.codes, toks, "codes in report order")
        h.eq(r.unparsed_groups, ["R01/0400"], "fourth range is not parsed")
        for i in range(3):
            check_rvr(h, r.runway_ranges[i], toks[i], rvr_ref(toks[i]), "range %d" % i)
        return
    if c["kind"] == "any":
        tok = h.str("tok", c["n"], ALNUM)
    else:
        tail = [ALNUM.replace("E", "")] + [ALNUM] * (c["n"] - 2)
        if c["few"]:
            tail[:2] = ["0", DIGITS]
        tok = "R" + h.str("tail", c["n"] - 1, tail)
    if c["n"] in (8, 10, 11):
        h.assume(STATE.fullmatch(tok) is None)
    r = h.Metar(MH + tok)
    ref = rvr_ref(tok)
    h.eq(len(r.runway_ranges), 0 if ref is None else 1, "number of ranges")
    if ref is not None:
        check_rvr(h, r.runway_ranges[0], tok, ref)
