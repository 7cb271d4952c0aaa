"""C27: the reading of a group does not depend on the other groups."""
import random

from props.common import *
from props.shapes import ALPHA, CLOUD as CLOUDS, VIS, WIND, fill

BOUNDS = ("METAR (14 kinds of groups, two trends with 4 each) and TAF (7 kinds, three change periods with 4 each): each group in each of its listed "
          "forms with arbitrary digits, in 48 (thorough 144) settings of the other groups in which every form of every other group and its absence occur, from full to nearly empty "
          "reports; every wind, visibility and cloud shape of props/shapes.py with arbitrary digits, and present "
          "weather of 1..5 (thorough 7) arbitrary letters, alone in METAR, TAF, trend and change period (dictionary and text); the body under "
          "METAR, SPECI, TAF AMD, TAF COR and no type word; the reading of a group is its dictionary (C20)")
ASSUMPTIONS = ["minimum visibility is read after a prevailing visibility only, and is varied together with it",
               "of two METAR pressures the second one counts, and a pressure without a letter may be taken for a visibility (C05)",
               "what derives from several groups (flight rules C13, ceiling and should-be-CAVOK C14, times of periods C10-C12) is left out"]
WINDS = ("?20??KT", "VRB??G??MPS", "00000KT", "?50?5G??KT", "250P99KT")
VISES = ("?000", "CAVOK", "?SM", "P6SM", "2 1/?SM", "9999", "M1/4SM", "10?0")
WXS = ("RA", "-SHRA BR", "+TSRA VCFG HZ", "NSW")
CLDS = ("FEW0?0", "SCT0?0TCU BKN050CB OVC250", "VV00?", "SKC", "NSC", "BKN///", "VV///", "FEW010 SCT025CB BKN0?0 OVC100")
SECTION = (("wind", ("wind",), WINDS), ("visibility", ("prevailing_visibility",), VISES), ("weather", ("weathers",), WXS),
           ("cloud", ("clouds",), CLDS))
METAR = (
    ("modifier", ("modifier",), ("AUTO", "COR", "NIL", "TEST")),
    ("wind", ("wind",), WINDS + ("/////KT", "///?5KT")),
    ("variation", ("wind_variation",), ("0?0V1?0", "35?V020")),
    ("visibility", ("prevailing_visibility", "minimum_visibility"), VISES + ("////", "0?00NE", "5000 2?00S", "?000 1000", "9999 0?00NW")),
    ("runway range", ("runway_ranges",), ("R??/????", "R24L/P??00V2000D R06/0?00FT", "R01R////// R02/0500N R88/M0?00", "R03/0500 R04C/P1000U R05L/0400V0900FT")),
    ("weather", ("weathers",), WXS[:3] + ("SNOW",)),
    ("cloud", ("clouds",), CLDS + ("//////", "////// FEW020///")),
    ("temperature", ("temperatures",), ("??/1?", "M??/M??", "??///", "/////", "00/M00", "0?/00")),
    ("pressure", ("pressure",), ("Q10?5", "A29?5", "Q////", "QNH29?5INS")),
    ("recent weather", ("recent_weather",), ("RERA", "RETS", "RE//")),
    ("windshear", ("windshears",), ("WS R?2", "WS R12L WS RWY0?C", "WS ALL RWY")),
    ("sea state", ("sea_state",), ("W??/S?", "WM0?/H??", "W///S/")),
    ("runway state", ("runway_state",), ("R12/45??92", "R1?/CLRD//", "R/SNOCLO", "R88/////99")),
    ("remark", ("remark",), ("RMK AO2 SLP1?2", "RMK")),
)
TAF = (
    ("nil", ("missing",), ("NIL",)),
    ("cancelled", ("cancelled",), ("CNL",)),
) + SECTION + (
    ("temperature", ("max_temperatures", "min_temperatures"), ("TX??/0715Z TNM0?/0806Z", "TN0?/0715Z TX00/0716Z TN15/0717Z", "TXM1?/0715Z")),
)
SLOTS = {"metar": tuple((0,) + s for s in METAR[:-1]) + tuple((1,) + s for s in SECTION) + tuple((2,) + s for s in SECTION) + ((3,) + METAR[-1],),
         "taf": tuple((0,) + s for s in TAF) + tuple((k,) + s for k in (1, 2, 3) for s in SECTION)}
HEADS = {"metar": ("METAR PADK 071400Z", "TEMPO FM1430 TL1530", "BECMG AT1500", ""),
         "taf": ("TAF PADK 071130Z 0712/0812", "BECMG 0714/0716", "PROB30 TEMPO 0718/0720", "FM072200")}
LIST = {"metar": "weather_trends", "taf": "changes_forecasted"}


def cases(tier):
    q = tier == "quick"
    out = []
    for ctx in SLOTS:
        s = SLOTS[ctx]
        for i in range(len(s)):
            for part in range(2 if q else 6):
                out.append({"name": "%s %d %s among others %d" % (ctx, s[i][0], s[i][1], part), "kind": "rows", "ctx": ctx, "i": i,
                            "from": part * 24, "to": part * 24 + 24, "rows": 48 if q else 144})
    for name, forms in (("wind", WIND), ("visibility", VIS), ("cloud", CLOUDS)):
        for k in range(0, len(forms), 20):
            out.append({"name": "%s everywhere %d" % (name, k), "kind": "where", "group": name, "from": k, "to": k + 20})
    for n in range(1, 6 if q else 8):
        out.append({"name": "weather everywhere len %d" % n, "kind": "where", "group": "weather", "n": n})
    out.append({"name": "metar heads", "kind": "heads", "ctx": "metar"})
    out.append({"name": "taf heads", "kind": "heads", "ctx": "taf"})
    return out


ROWS = {}


def rows(ctx, n):
    """n settings of all slots such that each form of each slot, and its absence, occurs in some, between mostly full and mostly empty reports."""
    key = (ctx, n)
    slots = SLOTS[ctx]
    seed = 0
    while key not in ROWS:
        seed += 1
        rnd = random.Random(seed)
        table = []
        cols = []
        for s in slots:
            forms = list(s[3]) * (n // len(s[3]) + 1)
            rnd.shuffle(forms)
            cols.append(forms)
        for r in range(n):
            absent = (0.0, 0.15, 0.4, 0.85)[r % 4]
            table.append([None if rnd.random() < absent or slots[k][1] in ("nil", "cancelled") else cols[k][r].replace("?", str(1 + r % 2))
                          for k in range(len(slots))])
        if all(slots[k][1] in ("nil", "cancelled") or {x.replace("?", "1") for x in slots[k][3]} | {None} == {
                row[k] and cols_form(slots[k][3], row[k]) for row in table} for k in range(len(slots))):
            ROWS[key] = table
    return ROWS[key]


def cols_form(forms, text):
    for f in forms:
        if text in (f.replace("?", "1"), f.replace("?", "2")):
            return f.replace("?", "1")


def build(h, ctx, filled, head=None):
    """The report with the given texts of the slots (None: absent)."""
    parts = list(HEADS[ctx])
    if head is not None:
        parts[0] = head
    for k in range(len(SLOTS[ctx])):
        if filled[k] is not None:
            sec = SLOTS[ctx][k][0]
            parts[sec] = (parts[sec] + " " if parts[sec] else "") + filled[k]
    return (h.Metar if ctx == "metar" else h.Taf)(" ".join([p for p in parts if p]), 2022, 10)


def reading(ctx, r, k):
    """Dictionary of the groups of slot k."""
    sec, name, keys, forms = SLOTS[ctx][k]
    o = r
    if sec and name != "remark":
        items = getattr(r, LIST[ctx])
        if len(items) < sec:
            return None
        o = items[sec - 1]
    d = o.as_dict()
    out = []
    for key in keys:
        if key == "cancelled" or key == "missing":
            g = getattr(r, key)
            out.append((d[key], g.code))
        else:
            out.append(d[key])
    return out


PLAIN = {}


def plain(h, ctx, texts):
    """Readings of all slots of a report without arbitrary characters (the same on every path)."""
    key = (ctx, tuple(texts), h.symbolic)
    if key not in PLAIN:
        r = build(h, ctx, texts)
        PLAIN[key] = {k: reading(ctx, r, k) for k in range(len(texts))}
    return PLAIN[key]


def run(h, c):
    if c["kind"] == "where":
        return everywhere(h, c)
    if c["kind"] == "heads":
        return heads(h, c)
    ctx = c["ctx"]
    slots = SLOTS[ctx]
    i = c["i"]
    texts = list(rows(ctx, c["rows"])[h.choose("others", tuple(range(c["from"], c["to"])))])
    want = {}
    for k in range(len(slots)):
        one = [None] * len(slots)
        if k == i:
            texts[k] = one[k] = fill(h, "g%d." % k, h.choose("form", slots[k][3]))
            want[k] = reading(ctx, build(h, ctx, one), k)
        else:
            one[k] = texts[k]
            want[k] = plain(h, ctx, one)[k]
    full = build(h, ctx, texts)
    for k in range(len(slots)):
        h.eq(reading(ctx, full, k), want[k], "%s of section %d" % (slots[k][1], slots[k][0]))


def everywhere(h, c):
    if c["group"] == "weather":
        tok = h.str("tok", c["n"], ALPHA + "+-/")
        for w in ("NSW", "NSC", "SKC", "CLR", "NCD", "RMK", "FM", "NIL", "CNL", "COR", "AMD", "TEMPO", "BECMG", "PROB", "NOSIG", "AUTO", "TEST", "FINO", "CORR",
                  "CAVOK"):
            if len(w) <= c["n"]:
                h.assume(tok[:len(w)] != w)
        key, get = "weathers", lambda o: o.weathers
    else:
        forms = {"wind": WIND, "visibility": VIS, "cloud": CLOUDS}[c["group"]][c["from"]:c["to"]]
        tok = h.choose("shape", forms)
        tok = fill(h, "s", tok if c["group"] != "cloud" else tok.replace("???", "1?0"))
        key = {"wind": "wind", "visibility": "prevailing_visibility", "cloud": "clouds"}[c["group"]]
        get = lambda o: getattr(o, key)
    seen = []
    for ctx in ("metar", "taf", "trend", "change"):
        r, o = section(h, ctx, tok)
        codes = get(o).codes if hasattr(get(o), "codes") else [get(o).code]
        if codes == [tok]:
            d = o.as_dict()[key]
            if key in ("clouds", "weathers") and isinstance(d, dict):  # a period keeps the same lists as arrays
                d = list(d.values())
            seen.append((ctx, d, str(get(o))))
    for k in range(1, len(seen)):
        h.eq(seen[k][1:], seen[0][1:], "%s in %s and in %s" % (c["group"], seen[0][0], seen[k][0]))


def heads(h, c):
    ctx = c["ctx"]
    slots = SLOTS[ctx]
    k = h.choose("slot", tuple(range(len(slots))))
    texts = [None] * len(slots)
    texts[k] = fill(h, "g%d." % k, h.choose("form", slots[k][3]))
    first = HEADS[ctx][0]
    one = build(h, ctx, texts, first)
    rest = first[first.index(" ") + 1:]
    for head in ("SPECI " + rest, rest) if ctx == "metar" else ("TAF AMD " + rest, "TAF COR " + rest, rest):
        two = build(h, ctx, texts, head)
        h.eq(reading(ctx, two, k), reading(ctx, one, k), "%s of section %d after %s" % (slots[k][1], slots[k][0], head.split()[0]))
