"""C13: flight rules from the prevailing visibility and the first broken, overcast or vertical-visibility layer."""
from props.common import *

BOUNDS = ("METAR, TAF, METAR trend and TAF change period with every visibility of four digits (also with a direction in METAR), of one "
          "or two digits of statute miles or kilometres, with P or M, every fraction and mixed number of statute miles, CAVOK, //// or "
          "none, and 0..4 layers: the first ceiling layer at every position 0..3 among low FEW, SCT and NSC "
          "layers and followed by a lower BKN, OVC or VV layer, every amount (BKN, OVC, 0VC, VV), every height 000..999 or ///, "
          "with TCU, CB or no type; quick: fractions together with a ceiling in METAR and TAF change only, whole part of one digit")
ASSUMPTIONS = ["fractions of kilometres are left out"]
CTX = ("metar", "taf", "trend", "change")
LEVELS = (("VLIFR", 60, 800), ("LIFR", 150, 1600), ("IFR", 300, 5000), ("MVFR", 900, 8000))
VIS = ("", "////", "CAVOK", "d", "dN", "1SM", "2SM", "1KM", "2KM", "P1SM", "M1/SM", "/SM", "1 /SM", "2 /SM")
BEFORE = ((), ("FEW",), ("SCT", "FEW"), ("NSC",), ("FEW", "SCT", "SCT"))
AFTER = ((), ("BKN",), ("OVC",), ("VV",))


def cases(tier):
    q = tier == "quick"
    out = []
    for ctx in CTX:
        for v in VIS:
            if ctx == "taf" and v == "////":
                continue
            for lay in ("none", "low", "ceiling"):
                if q and lay == "ceiling" and "/SM" in v and (ctx in ("taf", "trend") or v == "2 /SM"):
                    continue
                out.append({"name": "%s vis %s %s" % (ctx, v or "-", lay), "ctx": ctx, "vis": v, "lay": lay,
                            "before": [], "after": []})
        for b in BEFORE:
            for a in AFTER:
                if len(a) + len(b) > 3 or not a and not b:
                    continue
                for v in ("", "d") if q else ("", "d", "2SM", "1 /SM"):
                    out.append({"name": "%s vis %s after %s before %s" % (ctx, v or "-", " ".join(b), " ".join(a)), "ctx": ctx,
                                "vis": v, "lay": "ceiling", "before": list(b), "after": list(a)})
    return out


def vis(h, form):
    """(text, numerator, denominator): the visibility is numerator / denominator metres; (text, None, 1): unknown."""
    if form == "":
        return "", None, 1
    if form == "////":
        return form, None, 1
    if form == "CAVOK":
        return form, 10000, 1
    if form[0] == "d":
        s = h.digits("vis", 4)
        return s + (h.choose("dir", ("N", "SW")) if form == "dN" else ""), metres(s), 1
    if "/" in form:
        s, v = "", 0
        a = h.digits("num", 1)
        q = h.choose("den", (1, 2, 3, 4, 5, 8))
        if form[0] in "12":
            s = h.digits("whole", int(form[0]))
            v = int(s)
            s = s + " "
        if form[0] == "M":
            s = "M"
        return s + a + "/" + str(q) + "SM", (v * q + int(a)) * SM, q
    p = "P" if form[0] == "P" else ""
    s = h.digits("vis", int(form.replace("P", "")[0]))
    return p + s + form[-2:], int(s) * (SM if form[-2:] == "SM" else 1000), 1


def layer(h, n, cover):
    """(text, feet or None)"""
    hs = h.digits("h" + n, 3)
    if h.choose("known" + n, (True, False)):
        return cover + hs, int(hs) * 100
    return cover + "///", None


def category(v, q, feet):
    if v is None and feet is None:
        return None
    for name, m, d in LEVELS:
        if feet is not None and feet * 3048 < m * 10000:
            return name
        if v is not None and v < d * q:
            return name
    return "VFR"


def run(h, c):
    ctx = c["ctx"]
    v, dist, q = vis(h, c["vis"])
    words = [v] if v else []
    feet = None
    for i in range(len(c["before"])):
        b = c["before"][i]
        words.append(b if b == "NSC" else b + "00" + h.str("b%d" % i, 1, "123456789"))
    if c["lay"] == "low":
        words.append(h.choose("low", ("FEW", "SCT")) + h.digits("b", 3))
    elif c["lay"] == "ceiling":
        cover = h.choose("cover", ("BKN", "OVC", "0VC", "VV"))
        text, feet = layer(h, "", cover)
        words.append(text + (h.choose("type", ("", "CB", "TCU")) if "/SM" not in c["vis"] else ""))
    for i in range(len(c["after"])):
        words.append(c["after"][i] + "00" + h.str("a%d" % i, 1, "123456789"))
    tok = " ".join(words)
    if tok == "" and ctx in ("metar", "taf"):
        tok = "10005KT"
    r, s = section(h, ctx, tok)
    h.eq(s.flight_rules, category(dist, q, feet), "flight rules")
    h.eq(s.unparsed_groups, [], "unparsed")
    if ctx == "trend":
        h.eq(r.flight_rules, "VFR", "flight rules of the body")
