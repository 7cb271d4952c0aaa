"""C14: ceiling and should-be-CAVOK."""
from props.common import *

BOUNDS = ("METAR, TAF, METAR trend and TAF change period with: any visibility of four digits, statute miles, kilometres, CAVOK, "
          "////, or none, each with an optional weather group; no layer, one layer of every amount, height 000..999, /// or none and type TCU, CB, /// or none; "
          "two layers of every pair of amounts with arbitrary heights; such a layer in every place among up to three others of height "
          "050..099")
ASSUMPTIONS = []
CTX = ("metar", "taf", "trend", "change")
COVER = ("FEW", "SCT", "BKN", "OVC", "0VC", "VV", "SKC", "CLR", "NSC", "NCD", "///")
VIS = ("", "////", "CAVOK", "d", "SM", "KM", "9999")
WX = (None, "RA", "VCSH", "NSW", "BR")


def cases(tier):
    q = tier == "quick"
    out = []
    for ctx in CTX:
        for v in VIS:
            if v == "////" and ctx == "taf":
                continue
            for n in (0, 1):
                for w in range(5) if n == 0 or not q else (0, 3):
                    out.append({"name": "%s vis %s %d layers weather %s" % (ctx, v, n, WX[w]), "ctx": ctx, "vis": v, "n": n,
                                "wx": WX[w], "covers": ["?"] * n, "full": False})
        out.append({"name": "%s one layer" % ctx, "ctx": ctx, "vis": "9999", "n": 1, "wx": None, "covers": ["?"],
                    "full": True})
        for a in COVER:
            if q and a in ("CLR", "NCD", "0VC"):
                continue
            out.append({"name": "%s two layers %s" % (ctx, a), "ctx": ctx, "vis": "9999", "n": 2, "wx": None,
                        "covers": [a, "?"], "full": not q})
        for n in (3, 4):
            for i in range(n):
                if q and (i + n + CTX.index(ctx)) % 2:
                    continue
                out.append({"name": "%s layer %d of %d" % (ctx, i + 1, n), "ctx": ctx, "vis": "9999", "n": n, "wx": None,
                            "covers": ["high"] * i + ["?"] + ["high"] * (n - 1 - i), "full": True})
    return out


def vis(h, form):
    """(text, metres at least 10000 or None)"""
    if form == "" or form == "////":
        return form, None
    if form == "CAVOK" or form == "9999":
        return form, True
    if form == "d":
        s = h.digits("vis", 4)
        return s, s == "9999"
    s = h.digits("vis", 2)
    return s + form, int(s) * (SM if form == "SM" else 1000) >= 10000


def run(h, c):
    v, good = vis(h, c["vis"])
    words = [v] if v else []
    if c["wx"]:
        words.append(c["wx"])
    ceiling, cavok = False, good is not None and c["wx"] is None and c["n"] > 0
    if good is not None:
        if not good:
            cavok = False
    for i in range(c["n"]):
        k, typ, form = c["covers"][i], "", "known"
        n = "%d" % i
        if k == "high":
            k = h.choose("cover" + n, ("FEW", "BKN")) if i == 0 else "SCT"
            hs = h.str("h" + n, 3, ["0", "56789", DIGITS])
        else:
            hs = h.digits("h" + n, 3)
            if k == "?":
                k = h.choose("cover" + n, COVER)
            if c["full"]:
                typ = h.choose("type" + n, ("", "TCU", "CB", "///"))
                form = h.choose("form" + n, ("known", "///", "none"))
        if form == "none" and typ == "///":
            hs, typ, form = "///", "", "///"  # a lone /// is the height
        if form == "known":
            words.append(k + hs + typ)
            if k in ("BKN", "OVC", "0VC"):
                if int(hs) <= 15:
                    ceiling = True
            if int(hs) < 50:
                cavok = False
        else:
            words.append(k + ("///" if form == "///" else "") + typ)
        if k == "VV" or typ in ("TCU", "CB"):
            cavok = False
    if ceiling:
        cavok = False
    tok = " ".join(words)
    if tok == "" and c["ctx"] in ("metar", "taf"):
        tok = "10005KT"
    r, s = section(h, c["ctx"], tok)
    h.eq(len(s.clouds), c["n"], "number of layers")
    h.eq(s.clouds.ceiling, ceiling, "ceiling")
    h.eq(s.should_be_cavok(), cavok, "should be CAVOK")
    h.eq(s.clouds.ceiling, ceiling, "ceiling again")
