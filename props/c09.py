"""C09: report time."""
import datetime

from props.common import *

BOUNDS = ("METAR and TAF; time token arbitrary of 7 characters over [A-Z0-9/+-], or of 1..8 characters "
          "over [0-9ZK/]; year 1900..2100 "
          "(thorough 1000..9998) and month 1..12 arbitrary, each given to the constructor or taken from an arbitrary current "
          "UTC date (of a clock that shows any UTC instant, with a local time -12 h to +14 h away from it); and the report without time group")
ASSUMPTIONS = ["the coded day exists in the month (other inputs have no date; Python's datetime raises ValueError)",
               "the clock read during construction does not change (it is a fixed symbolic instant)"]
TIME = re.compile(r"(0[1-9]|[12][0-9]|3[01])([01][0-9]|2[0-4])([0-5][0-9])Z")
GIVEN = ("both", "year", "month", "none")


def cases(tier):
    out = []
    for kind in ("metar", "taf"):
        for g in GIVEN:
            for n in range(0, 9):
                if n in (0, 7) or g == "both" or tier != "quick":
                    out.append({"name": "%s %s len %d" % (kind, g, n), "kind": kind, "given": g, "n": n,
                                "years": [1900, 2100] if tier == "quick" else [1000, 9998]})
    return out


def run(h, c):
    lo, hi = c["years"]
    year = month = None
    if c["given"] in ("both", "year"):
        year = h.int("year", lo, hi)
    if c["given"] in ("both", "month"):
        month = h.int("month", 1, 12)
    ny, nm, nd = h.int("nowyear", lo, hi), h.int("nowmonth", 1, 12), h.int("nowday", 1, 31)
    h.assume(is_date(ny, nm, nd))
    h.set_now(ny, nm, nd, h.int("nowhour", 0, 23), h.int("nowminute", 0, 59), h.int("offset", -720, 840))
    y = ny if year is None else year
    m = nm if month is None else month
    n = c["n"]
    tok = h.str("tok", n, ALNUM if n == 7 and c["given"] == "both" else "0123456789Z/K")
    g = TIME.fullmatch(tok)
    if g:
        h.assume(is_date(y, m, int(g.group(1))))
    sep = " " if n else ""
    if c["kind"] == "metar":
        r = h.Metar("METAR PADK" + sep + tok + " 10005KT 9999 FEW020", year, month)
    else:
        r = h.Taf("TAF PADK" + sep + tok + " 10005KT 9999 FEW020", year, month)
    if g:
        want = datetime.datetime(y, m, int(g.group(1)), int(g.group(2)) % 24, int(g.group(3)))
        if int(g.group(2)) == 24:
            want = want + datetime.timedelta(days=1)
    else:
        want = datetime.datetime(y, m, 1)
    t = r.time
    h.eq(t.code, tok if g else None, "time code")
    h.eq(t.time, want, "time")
    h.eq((t.year, t.month, t.day, t.hour, t.minute), (want.year, want.month, want.day, want.hour, want.minute), "parts")
