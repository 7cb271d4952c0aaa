"""C19: reading a report is pure and reports are independent."""
from props.common import *

BOUNDS = ("a METAR with two trends and a TAF with three change periods, with arbitrary height and cover of a cloud layer (thorough: also of a layer of a period): "
          "every sequence of 2 reads (thorough 3) and every sequence of 3 reads (thorough 4; quick: METAR only) on fixed values, out of 16 kinds of reads: text form, "
          "dictionary, JSON, should_be_cavok, flight rules, ceiling, complete, abandoned and nested iteration of the cloud, weather and period lists, "
          "index, length, codes, strict construction; every pair of reports out of 12 texts, with arbitrary digits and one arbitrary unknown token, constructed in both orders "
          "and twice")
ASSUMPTIONS = ["the caller does not modify the lists and dictionaries it is given"]
METAR = "METAR PADK 071400Z 10005KT ?000 RA FEW0?0 &0?0CB 25/20 Q1012 RETS R12/CLRD// TEMPO FM1430 2000 BR BKN0?0 BECMG 9999 SKC XYZ RMK AO2"
TAF = ("TAF PADK 071130Z 0712/0812 10005KT ?000 RA FEW0?0 &0?0CB TX25/0715Z TN12/0806Z FM071500 20010KT 9999 SCT0?0 XYZ "
       "PROB30 TEMPO 0716/0718 RA OVC0?0 BECMG 0718/0720 CAVOK")
TEXTS = (
    METAR, TAF,
    "SPECI PADK 071400Z AUTO VRB02KT CAVOK M01/M02 A2992 NOSIG",
    "METAR PADK 071400Z /////KT //// ////// ///// Q////",
    "METAR PADK 081430Z COR 10005G15KT 080V120 1 1/2SM R12/0800 R13/0900U R14/P1500 -RA BR FG FEW010 SCT020 BKN030 OVC040 "
    "25/20 A2992 WS R12 WS R13 WS ALL RWY W15/S2",
    "METAR ZZZZ @ 10005KT",
    "@",
    "TAF AMD PADK 071130Z NIL",
    "TAF PADK 071130Z 0712/0812 CNL",
    "TAF PADK 071130Z 0712/0812 9999 NSW NSC @ TEMPO @ BECMG 0716/0718 @",
    "TAF ZZZZ 0712/0812 RA BR FG FEW010 SCT020 BKN030 OVC040 TX20/0715Z TX21/0716Z TN01/0717Z TN00/0718Z",
    "METAR PADK 071400Z 9999 TEMPO @ 2000 BECMG NSW NSC",
)


def is_taf(text):
    return text[:3] == "TAF"


def periods(r):
    return r.changes_forecasted if hasattr(r, "changes_forecasted") else r.weather_trends


def first(it):
    for x in it:
        return x
    return None


def nested(l):
    return [(x.code, y.code) for x in l for y in l]


def steps(l):
    """Two interleaved iterations, the first one abandoned."""
    a = iter(l)
    x = next(a, None)
    out = [g.code for g in l]
    y = next(a, None)
    return [x and x.code, out, y and y.code]


def period_clouds(r):
    return [[first(p.clouds) and first(p.clouds).code, nested(p.clouds), p.should_be_cavok(), p.clouds.ceiling, p.flight_rules] for p in periods(r)]


READS = (
    ("text", lambda h, r: str(r)),
    ("dictionary", lambda h, r: r.as_dict()),
    ("JSON", lambda h, r: r.to_json()),
    ("should_be_cavok", lambda h, r: r.should_be_cavok()),
    ("flight rules", lambda h, r: r.flight_rules),
    ("ceiling", lambda h, r: r.clouds.ceiling),
    ("first cloud", lambda h, r: [first(r.clouds) and first(r.clouds).code, first(r.weathers) and first(r.weathers).code]),
    ("first period", lambda h, r: first(periods(r)) and first(periods(r)).as_dict()),
    ("all clouds", lambda h, r: [c.as_dict() for c in r.clouds]),
    ("nested clouds", lambda h, r: nested(r.clouds)),
    ("interleaved", lambda h, r: [steps(r.clouds), steps(r.weathers), steps(periods(r))]),
    ("nested periods", lambda h, r: nested(periods(r))),
    ("period clouds", lambda h, r: period_clouds(r)),
    ("index", lambda h, r: [r.clouds[i].code for i in range(len(r.clouds))] + [periods(r)[i].code for i in range(len(periods(r)))]),
    ("codes", lambda h, r: [r.clouds.codes, r.weathers.codes, periods(r).codes, r.unparsed_groups, r.sections]),
    ("membership", lambda h, r: [all(c.code is not None for c in r.clouds), any(c.cover is None for c in r.clouds), len(list(r.clouds)),
                                 first(r.clouds) in r.clouds, str(r.clouds), str(periods(r)), [str(p) for p in periods(r)]]),
)


def snapshot(h, r):
    """Everything the report says, without the reads that are under test in a special order."""
    return [r.as_dict(), [c.code for c in r.clouds], [w.code for w in r.weathers], [p.code for p in periods(r)],
            [[c.code for c in p.clouds] for p in periods(r)], r.should_be_cavok(), r.clouds.ceiling, str(r)]


def cases(tier):
    q = tier == "quick"
    out = []
    for ctx in ("metar", "taf"):
        for i in range(len(READS)):
            for sym, n in (((3,), 2), ((), 3))[:2 if ctx == "metar" else 1] if q else (((3, 4), 2), ((3,), 3), ((), 4)):
                out.append({"name": "%s %s first, %d reads, symbols %s" % (ctx, READS[i][0], n, sym), "ctx": ctx, "kind": "reads",
                            "first": i, "n": n, "sym": sym})
    for i in range(len(TEXTS)):
        out.append({"name": "pairs with text %d" % i, "ctx": "", "kind": "pairs", "i": i})
    return out


def fill(h, text, name, sym):
    """Arbitrary digits and covers for ? and &, an unknown token for @."""
    out = ""
    k = 0
    for i in range(len(text)):
        c = text[i]
        if c == "?":
            k = k + 1
            c = h.digits("%s%d" % (name, i), 1) if k in sym else "3"
        elif c == "&":
            c = h.choose(name + "cover", ("BKN", "VV") if sym else ("BKN",))
        elif c == "@":
            c = h.str("%s%d" % (name, i), 1, "XYZ") + h.str("%su%d" % (name, i), 1, ALNUM)
        out = out + c
    return out.replace("VV030CB", "VV030")


def make(h, text):
    return (h.Taf if is_taf(text) else h.Metar)(text, 2022, 10)


def run(h, c):
    h.set_now(2022, 10, 9, 12, 0)
    if c["kind"] == "reads":
        text = fill(h, METAR if c["ctx"] == "metar" else TAF, "d", c["sym"])
        r = make(h, text)
        want = snapshot(h, make(h, text))
        for k in range(c["n"]):
            name, read = READS[c["first"]] if k == 0 else h.choose("read%d" % k, READS)
            h.eq(read(h, r), read(h, make(h, text)), name)
        h.eq(snapshot(h, r), want, "data after the reads")
        h.eq(h.printed(), [], "nothing printed")
        return
    one = fill(h, TEXTS[c["i"]], "a", (3,))
    two = fill(h, h.choose("other", TEXTS), "b", ())
    a = make(h, one)
    before = snapshot(h, a)
    b = make(h, two)
    other = snapshot(h, b)
    h.attempt(h.Taf if is_taf(two) else h.Metar, two, 2022, 10, truncate=True)
    h.eq(snapshot(h, a), before, "first report after the second one")
    h.eq(snapshot(h, make(h, one)), before, "same text again")
    h.eq(snapshot(h, b), other, "second report after the first one again")
    h.eq(h.printed(), [], "nothing printed")
