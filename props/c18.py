"""C18: the layout of the text does not change what is parsed."""
from props.common import *

BOUNDS = ("three METARs and three TAFs with every kind of group (mixed-number visibilities, windshear phrases, trends, changes, PROB TEMPO, remark): "
          "every string of 1..3 (thorough 1..4) characters out of blank, tab, newline, return, form feed and vertical tab between any two "
          "neighbouring groups, all of the same length at once or at two places each of its own length, before and after the text; the end mark '=' attached to any group, "
          "alone between any two groups, once or doubled, before or after the blanks; one arbitrary token of 1..3 (thorough 1..4) characters in place of every fifth "
          "(thorough every) group, with two arbitrary blanks between all groups")
ASSUMPTIONS = []
REPORTS = (
    ("m", "METAR PADK 071400Z AUTO 10005KT 080V120 1 1/2SM 2000NW R12/0800 -RA FEW020 25/20 Q1012 RETS WS ALL RWY W15/S2 R12/451092 "
          "TEMPO FM1430 TL1530 2 1/4SM RA OVC010 BECMG 9999 RMK AO2 SLP012"),
    ("m", "SPECI PADK 071400Z COR VRB02KT CAVOK M01/M02 A2992 WS R12 WS R13L NOSIG RMK A B"),
    ("m", "PADK 071400Z 10005G15KT 0800 FG VV001 02/02 XYZ Q1012 BECMG AT1500 SKC"),
    ("t", "TAF AMD PADK 071130Z 0712/0812 10005KT 1 1/2SM -RA BR FEW020 TX25/0715Z TN12/0806Z FM071500 20010KT 9999 NSW SKC "
          "PROB30 TEMPO 0716/0718 2 3/4SM TSRA BKN010CB PROB40 0718/0720 0500 FG BECMG 0720/0722 CAVOK"),
    ("t", "TAF PADK 071130Z NIL"),
    ("t", "TAF COR PADK 071130Z 0712/0812 CNL"),
)
WS = " \t\n\r\f\v"


def cases(tier):
    q = tier == "quick"
    out = []
    for i, (k, text) in enumerate(REPORTS):
        n = len(text.split(" "))
        for m in range(1, 4 if q else 5):
            out.append({"name": "%d all separators len %d" % (i, m), "i": i, "kind": "all", "m": m})
        for g in range(n + 1):
            out.append({"name": "%d separator %d" % (i, g), "i": i, "kind": "one", "at": g, "m": 3 if q else 4})
            out.append({"name": "%d end mark %d" % (i, g), "i": i, "kind": "end", "at": g})
        if i in (0, 3):
            for g in range(4, n, 5 if q else 1):
                for m in (1, 2, 3) if q else range(1, 5):
                    out.append({"name": "%d token len %d for %d" % (i, m, g), "i": i, "kind": "token", "at": g, "n": m})
    return out


def same(h, r, ref, text, with_str):
    h.eq(r.raw_code, text, "raw code")
    h.eq(r.sections, ref.sections, "sections")
    h.eq(r.unparsed_groups, ref.unparsed_groups, "unparsed groups")
    if with_str:
        h.eq(str(r), str(ref), "text form")
    h.eq(r.as_dict(), ref.as_dict(), "data")


def run(h, c):
    k, text = REPORTS[c["i"]]
    groups = text.split(" ")
    n = len(groups)
    build = h.Metar if k == "m" else h.Taf
    ref = build(text, 2022, 10)
    h.eq(ref.raw_code, text, "raw code of the normal form")
    seps = [""] + [" "] * (n - 1) + [""]
    if c["kind"] == "token":
        for i in range(n + 1):
            seps[i] = h.str("sep%d" % i, 2, WS)
    elif c["kind"] == "all":
        for i in range(n + 1):
            m = c["m"] - (i in (0, n))
            seps[i] = h.str("sep%d" % i, m, WS)
    else:
        at = c["at"]
        if c["kind"] == "one":
            other = h.choose("other", tuple(x for x in (0, 1, n // 2, n) if x != at))
            for j in (at, other):
                m = h.choose("len%d" % j, tuple(range(0 if j in (0, n) else 1, c["m"] + 1)))
                seps[j] = h.str("sep%d" % j, m, WS)
        else:
            form = h.choose("form", ("=", "==", " =", "= ", " = ", "\n=\n", "= = ="))
            a = h.str("a", 1, WS)
            b = h.str("b", 1, WS)
            if at == 0:
                form = a + form + h.choose("c", ("", " "))
            elif at == n:
                form = h.choose("c", ("", a)) + form + h.choose("d", ("", b))
            else:
                if form[0] == " " or form[0] == "\n":
                    form = a + form
                form = form + b
            seps[at] = form
    if c["kind"] == "token":
        groups[c["at"]] = h.str("tok", c["n"], ALNUM)
        text = " ".join(groups)
        o = h.attempt(build, text, 2022, 10)
        if not o.ok:
            h.eq(o.kind, "RangeError", "construction")  # a third trend, see C22
            return
        ref = o.value
    out = ""
    for i in range(n):
        out = out + seps[i] + groups[i]
    out = out + seps[n]
    same(h, build(out, 2022, 10), ref, text, c["kind"] != "token" or c["n"] < 4)
