"""C02: prevailing and minimum visibility groups."""
from props.common import *

BOUNDS = ("one arbitrary token of 1..9 characters over [A-Z0-9/+-] (8+: not starting with R) in the visibility position of a "
          "METAR body, a TAF body, a METAR trend and a TAF change period; an arbitrary 1-2 digit number followed by an "
          "arbitrary token of 5 or 6 (thorough: 4..6) characters (mixed numbers) in the same places; minimum visibility: an arbitrary token of "
          "1..8 characters after a 4-digit prevailing visibility with arbitrary digits and optional direction. "
          "Quick tier: tokens of 5+ characters in trends and change periods do not use the digits 5, 6, 7, and mixed numbers "
          "have one leading digit (METAR, change) or two (TAF, trend)")
ASSUMPTIONS = ["distances are compared with the physical factors within 2e-6 relative (1e-6 absolute); 1 SM = 1852 m as documented"]
FEW = ALNUM.replace("5", "").replace("6", "").replace("7", "")
FRACTION = re.compile(r"([0-9])/([1-9])SM")


def cases(tier):
    out = []
    for ctx in ("metar", "taf", "trend", "change"):
        for n in range(1, 10):
            out.append({"name": "visibility %s len %d" % (ctx, n), "kind": "one", "ctx": ctx, "n": n,
                        "few": tier == "quick" and n > 4 and ctx in ("trend", "change")})
        for k in (1, 2):
            for n in (4, 5, 6):
                first = k == (1 if ctx in ("metar", "change") else 2)
                if tier != "quick" or first and (n == 5 or n == 6 and ctx in ("metar", "change")):
                    out.append({"name": "mixed %s %d+%d" % (ctx, k, n), "kind": "mixed", "ctx": ctx, "k": k, "n": n})
    for n in range(1, 9):
        out.append({"name": "minimum len %d" % n, "kind": "min", "n": n})
    return out


def run(h, c):
    if c["kind"] == "min":
        first = h.digits("first", 4)
        tok = token(h, "tok", c["n"])
        r = h.Metar(MH + first + " " + tok)
        check_visibility(h, r.prevailing_visibility, first, (metres(first), None, False))
        m = METRES.fullmatch(tok)
        check_visibility(h, r.minimum_visibility, tok if m else None,
                         (metres(m.group(1)), m.group(2), False) if m else None, "minimum", False)
        return
    taf = c["ctx"] == "taf"
    if c["kind"] == "one":
        if c["few"]:
            tok = h.str("tok", c["n"], [FEW.replace("R", "") if c["n"] > 7 else FEW] + [FEW] * (c["n"] - 1))
        else:
            tok = token(h, "tok", c["n"])
        r, s = section(h, c["ctx"], tok)
        ref = vis_ref(tok, taf)
        check_visibility(h, s.prevailing_visibility, None if ref is None else tok, ref)
        if c["ctx"] == "metar":
            check_visibility(h, r.minimum_visibility, None, None, "minimum", False)
        return
    whole = h.digits("whole", c["k"])
    tok = token(h, "tok", c["n"])
    r, s = section(h, c["ctx"], whole + " " + tok)
    m = FRACTION.fullmatch(tok)
    if m:
        check_visibility(h, s.prevailing_visibility, whole + " " + tok,
                         (unit_distance(whole, m.group(1), m.group(2), "SM"), None, False))
        h.eq(r.unparsed_groups, [], "unparsed")
    else:
        ref = vis_ref(tok, taf)
        check_visibility(h, s.prevailing_visibility, None if ref is None else tok, ref)
