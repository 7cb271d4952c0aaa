"""C21: station lookup."""
from props.common import *

BOUNDS = ("every station code [A-Z][A-Z0-9]{3} in a METAR (thorough: and in a TAF), one case per first two characters, the other two "
          "arbitrary; Station objects of every IATA code [A-Z0-9]{3} and every SYNOP code [0-9]{5}; the whole station and country tables; "
          "two reports with the same code")
ASSUMPTIONS = []
FIELDS = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation")
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def cases(tier):
    out = []
    for t in ("metar",) if tier == "quick" else ("metar", "taf"):
        for a in LETTERS:
            for b in LETTERS + DIGITS:
                out.append({"name": "%s %s%s.." % (t, a, b), "head": a + b, "t": t})
    for a in LETTERS + DIGITS:
        out.append({"name": "IATA %s.." % a, "head": a, "t": "IATA"})
    for a in DIGITS:
        for b in DIGITS:
            out.append({"name": "SYNOP %s%s.." % (a, b), "head": a + b, "t": "SYNOP"})
    return out


def rows(h):
    t = getattr(getattr(h.db, "stations", None), "STATIONS", None)
    return list(h.db.get_stations()) if t is None else t


def country(h, code):
    t = getattr(getattr(h.db, "countries", None), "COUNTRIES", None)
    return h.db.get_country(code) if t is None else t.get(code)


def direct(h, c):
    """A station object of another kind of code."""
    i, n, al = {"IATA": (2, 3, LETTERS + DIGITS), "SYNOP": (3, 5, DIGITS)}[c["t"]]
    k = len(c["head"])
    rest = h.str("rest", n - k, al)
    row, seen = None, {}
    for s in rows(h):
        if s[i][:k] == c["head"] and len(s[i]) == n and s[i] not in seen:
            seen[s[i]] = s
    for q in seen:
        if rest == q[k:]:
            row = seen[q]
            break
    x = h.models.Station(c["head"] + rest, c["t"])
    h.eq(x.code, c["head"] + rest, "code")
    for j in range(7):
        h.eq(getattr(x, FIELDS[j]), None if row is None else row[j], FIELDS[j])
    h.eq(x.country, None if row is None else country(h, row[7]), "country")


def run(h, c):
    if c["t"] in ("IATA", "SYNOP"):
        return direct(h, c)
    rest = h.str("rest", 2, LETTERS + DIGITS)
    tok = c["head"] + rest
    row, seen = None, {}
    for s in rows(h):
        k = s[1]
        if k[:2] == c["head"] and k not in seen:
            seen[k] = s
    for k in seen:
        if rest == k[2:]:
            row = seen[k]
            break
    if c["t"] == "metar":
        r = h.Metar("METAR " + tok + " 071400Z 10005KT")
    else:
        r = h.Taf("TAF " + tok + " 071130Z 0712/0812 10005KT")
    x = r.station
    h.eq(x.code, tok, "code")
    for i in range(7):
        h.eq(getattr(x, FIELDS[i]), None if row is None else row[i], FIELDS[i])
    h.eq(x.country, None if row is None else country(h, row[7]), "country")
    h.eq(r.unparsed_groups, [], "unparsed")
    if row is None:
        y = h.Taf("TAF " + tok + " 071130Z 0712/0812 10005KT").station
        for f in FIELDS:
            h.eq(getattr(y, f), None, f + " in another report")
