"""C15: every group is decoded once or reported unparsed."""
from props.common import *

BOUNDS = ("METAR (20 groups), TAF (13), METAR trend (9) and TAF change period (8) in the standard order, two digits arbitrary: (a) all groups "
          "but up to two (thorough three) of them, and up to two (thorough three) of them alone (thorough: every subset of the groups of "
          "trend and change period), each also with an unknown token in the middle, and with two (the same or different ones) around (thorough: also one at the start and one at the end); (a2) every number of runway ranges, weathers, clouds, wind shears and temperatures up to the capacity of the lists; (b) all groups and one arbitrary "
          "token of 1..7 characters over [A-Z0-9/+-] at every place (quick: of 2, 3, 5 or 6 characters, at every other place by turns); (c) reports with two trends or three "
          "change periods and two (thorough three) unknown groups at any of the places in body and periods, the same or different ones")
ASSUMPTIONS = ["the arbitrary token does not begin with a section word (NOSIG, TEMPO, BECMG, RMK; FM, TEMPO, BECMG, PROB in a TAF); before "
               "the station a token of four characters starts with a character that starts no station code",
               "of two pressure groups the second one counts (C05)"]
METAR = ("METAR", "PADK", "071400Z", "AUTO", "10005KT", "080V120", "5000", "2000NW", "R12/0800", "R24L/P1500D", "-RA", "BR", "FEW020",
         "BKN040CB", "25/20", "Q1012", "RETS", "WS R12", "W15/S2", "R12/451092")
TAF = ("TAF", "AMD", "PADK", "071130Z", "0712/0812", "10005KT", "5000", "-RA", "BR", "FEW020", "BKN040CB", "TX25/0715Z",
       "TN12/0806Z")
TREND = ("TEMPO", "FM1430", "TL1530", "20010KT", "2 1/2SM", "RA", "BR", "SCT010", "OVC030")
CHANGE = ("BECMG", "0714/0716", "20010KT", "1 3/4SM", "RA", "BR", "SCT010", "OVC030")
ALL = {"metar": METAR, "taf": TAF, "trend": TREND, "change": CHANGE}
KEEP = {"metar": 0, "taf": 0, "trend": 1, "change": 2}  # groups that are always there
PRESSURE = re.compile(r"(A|Q|QNH)?([0-9]{4}|////)(INS)?")
UNKNOWN = "XYZ/-"
WORDS = {"metar": ("RMK", "NOSIG", "TEMPO", "BECMG"), "taf": ("FM", "PROB", "TEMPO", "BECMG")}
HEAD = {"trend": "METAR PADK 071400Z 10005KT 9999 FEW020 25/20 Q1012 ", "change": "TAF PADK 071130Z 0712/0812 10005KT 9999 FEW020 "}

# the groups that can be repeated, in the standard order
LISTS = {
    "metar": (("R12/0800", "R24L/P1500D", "R06R/0400V0600U"), ("-RA", "BR", "VCFG"), ("FEW020", "SCT030TCU", "BKN040CB", "OVC100"),
              ("WS R12", "WS R24L", "WS RWY06R")),
    "taf": (("-RA", "BR", "VCFG"), ("FEW020", "SCT030TCU", "BKN040CB", "OVC100"), ("TX25/0715Z", "TX27/0716Z"), ("TN12/0806Z", "TN10/0807Z")),
    "trend": (("-RA", "BR", "VCFG"), ("FEW020", "SCT030TCU", "BKN040CB", "OVC100")),
    "change": (("-RA", "BR", "VCFG"), ("FEW020", "SCT030TCU", "BKN040CB", "OVC100")),
}


# a report with its trends or change periods; the groups with the places where an unknown group may stand after them
WHOLE = {
    "metar": ("METAR PADK 071400Z 10005KT", "9999 FEW020 25/20 Q1012", "TEMPO FM1430", "20010KT SCT010", "BECMG", "5000 OVC030"),
    "taf": ("TAF PADK 071130Z 0712/0812 10005KT", "9999 FEW020", "BECMG 0714/0716", "20010KT SCT010", "FM071800", "5000",
            "PROB30 TEMPO 0720/0722", "OVC030"),
}


def cases(tier):
    q = tier == "quick"
    out = []
    for ctx in WHOLE:
        n = len(WHOLE[ctx])
        for i in range(n):
            out.append({"name": "%s whole %d" % (ctx, i), "ctx": ctx, "kind": "whole", "first": i, "more": 1 if q else 2})
    for ctx in LISTS:
        for n in range(len(LISTS[ctx][0]) + 1):
            out.append({"name": "%s lists %d.." % (ctx, n), "ctx": ctx, "kind": "lists", "n": n})
    for ctx in ALL:
        g = ALL[ctx]
        keep = KEEP[ctx]
        free = len(g) - keep
        for where in ("none", "middle", "twice") if q else ("none", "start", "middle", "end", "twice"):
            if free <= 8 and not q:
                out.append({"name": "%s subsets %s" % (ctx, where), "ctx": ctx, "kind": "subset", "where": where, "mode": "all"})
                continue
            for mode in ("without", "only"):
                for i in range(keep, len(g)):
                    out.append({"name": "%s %s %s.. %s" % (ctx, mode, g[i], where), "ctx": ctx, "kind": "subset", "where": where,
                                "mode": mode, "first": i, "depth": 2 if q else 3})
        for i in range(keep, len(g) + 1):
            for n in range(1, 8):
                if q and ((i + n) % 2 or n in (1, 4, 7)):
                    continue
                out.append({"name": "%s token len %d at %d" % (ctx, n, i), "ctx": ctx, "kind": "token", "n": n, "at": i})
    return out


def symbolic(h, ctx):
    """The groups with arbitrary values."""
    d = h.str("digit", 1, "123456789")
    e = h.digits("digit2", 1)
    out = []
    for x in ALL[ctx]:
        for a, b in (("10005KT", "100" + e + "5KT"), ("20010KT", "2001" + e + "KT"), ("R12/0800", "R12/0" + d + "00"),
                     ("FEW020", "FEW0" + d + "0"), ("OVC030", "OVC0" + e + d), ("Q1012", "Q10" + e + d), ("25/20", "2" + d + "/1" + e),
                     ("W15/S2", "W1" + e + "/S2"), ("WS R12", "WS R1" + e), ("TN12/0806Z", "TN1" + d + "/0806Z")):
            if x == a:
                x = b
                break
        out.append(x)
    return out


def sect_codes(s):
    return [s.wind.code], [s.prevailing_visibility.code], s.weathers.codes, s.clouds.codes


def decoded(ctx, r):
    """Codes of all fields, in the standard order."""
    if ctx == "metar":
        w, v, x, c = sect_codes(r)
        out = ([r.station.code, r.time.code, r.modifier.code] + w + [r.wind_variation.code] + v + [r.minimum_visibility.code]
               + r.runway_ranges.codes + x + c + [r.temperatures.code, r.pressure.code, r.recent_weather.code]
               + r.windshears.codes + [r.sea_state.code, r.runway_state.code])
    elif ctx == "taf":
        w, v, x, c = sect_codes(r)
        out = ([r.modifier.code, r.station.code, r.time.code, r.missing.code, r.valid.code, r.cancelled.code] + w + v + x + c
               + r.max_temperatures.codes + r.min_temperatures.codes)
    else:
        if ctx == "trend":
            s = r.weather_trends[0]
            ind = s.trend_indicator.code
        else:
            s = r.changes_forecasted[0]
            ind = s.change_indicator.code
        w, v, x, c = sect_codes(s)
        out = [ind] + w + v + x + c
    return [k for k in out if k is not None]


def build(h, ctx, groups):
    text = HEAD.get(ctx, "") + " ".join(groups)
    return (h.Metar if ctx in ("metar", "trend") else h.Taf)(text, 2022, 10)


def expected(ctx, groups):
    """The codes of the fields when all groups are decoded."""
    if ctx in ("metar", "taf"):
        return [g for g in groups if g not in ("METAR", "TAF")]
    n = 1
    while n < len(groups) and (groups[n][:2] in ("FM", "TL") or ctx == "change" and n == 1 and len(groups[n]) == 9):
        n += 1
    return [" ".join(groups[:n])] + list(groups[n:])


def whole(h, c):
    """Unknown groups in the body and in the trends or change periods, the same ones or different ones."""
    ctx = c["ctx"]
    parts = WHOLE[ctx]
    spots = [c["first"]]
    for k in range(c["more"]):
        spots.append(h.choose("spot%d" % k, tuple(range(spots[-1], len(parts)))))
    units = [h.str("u%d" % k, 1, "XYZ") + UNKNOWN[1:] for k in range(len(spots))]
    groups, per = [], [[] for _ in range(len(parts) // 2)]
    for i in range(len(parts)):
        groups.append(parts[i])
        for k in range(len(spots)):
            if spots[k] == i:
                groups.append(units[k])
                per[i // 2].append(units[k])
    text = " ".join(groups)
    r = h.Metar(text, 2022, 10) if ctx == "metar" else h.Taf(text, 2022, 10)
    h.eq(r.unparsed_groups, [u for one in per for u in one], "unparsed groups of the report")
    items = r.weather_trends.items if ctx == "metar" else r.changes_forecasted.items
    h.eq(len(items), len(per) - 1, "number of sections")
    h.eq([x.unparsed_groups for x in items], per[1:], "unparsed groups of the sections")


def run(h, c):
    if c["kind"] == "whole":
        return whole(h, c)
    ctx, g = c["ctx"], ALL[c["ctx"]]
    if c["kind"] == "subset":
        g = symbolic(h, ctx)
        keep = KEEP[ctx]
        if c["mode"] == "all":
            have = [g[i] for i in range(len(g)) if i < keep or h.bool("g%d" % i)]
        else:
            picked, last = [c["first"]], c["first"]
            for k in range(c["depth"] - 1):
                last = h.choose("pick%d" % k, tuple(range(last, len(g))))
                picked.append(last)
            have = [g[i] for i in range(len(g)) if i < keep or (i in picked) == (c["mode"] == "only")]
        if len(have) == 0:
            return
        text = list(have)
        un = []
        if c["where"] == "twice":
            un = [h.str("u%d" % k, 1, "XYZ") + UNKNOWN[1:] for k in range(2)]
            text = have[:keep] + [un[0]] + have[keep:] + [un[1]]
        elif c["where"] != "none":
            at = {"start": keep, "middle": (len(have) + keep) // 2, "end": len(have)}[c["where"]]
            u = h.str("u", 1, "XYZ") + UNKNOWN[1:]
            text.insert(at, u)
            un = [u]
        r = build(h, ctx, text)
        h.eq(decoded(ctx, r), expected(ctx, have), "decoded groups")
        h.eq(r.unparsed_groups, un, "unparsed groups")
        if ctx in ("metar", "taf"):
            h.eq(r.type_.code, ctx.upper(), "type")
        return
    if c["kind"] == "lists":
        pre = {"metar": ["METAR", "PADK", "071400Z", "10005KT", "5000"], "taf": ["TAF", "PADK", "071130Z", "0712/0812", "10005KT", "5000"],
               "trend": ["TEMPO", "FM1430"], "change": ["BECMG", "0714/0716", "20010KT"]}[ctx]
        have = list(pre)
        for k in range(len(LISTS[ctx])):
            one = LISTS[ctx][k]
            count = c["n"] if k == 0 else h.choose("count%d" % k, tuple(range(len(one) + 1)))
            first = h.bool("backwards") if ctx == "metar" and k == 3 else False
            chosen = list(one[:count])
            if first:
                chosen.reverse()
            have += chosen
        r = build(h, ctx, have)
        h.eq(decoded(ctx, r), expected(ctx, have), "decoded groups")
        h.eq(r.unparsed_groups, [], "unparsed groups")
        return
    n, at = c["n"], c["at"]
    al = [ALNUM] * n
    if n == 4 and g[at - 1:at] != ("PADK",) and "PADK" in g[at:]:
        al[0] = "IJ0123456789/+-"
    tok = h.str("tok", n, al)
    for w in WORDS["taf" if ctx in ("taf", "change") else "metar"]:
        if len(w) <= n:
            h.assume(tok[:len(w)] != w)
    groups = list(g)
    groups.insert(at, tok)
    r = build(h, ctx, groups)
    un = r.unparsed_groups
    codes = decoded(ctx, r)
    if ctx in ("trend", "change"):
        codes = codes[0].split() + codes[1:]
    i, j, twice = 0, 0, ctx == "metar"
    for k in range(len(groups)):
        if groups[k] in ("METAR", "TAF") or k == at and n in (3, 5) and r.type_.code == tok:
            if j < len(un) and un[j] == groups[k]:
                j = j + 1  # a type word after another group
            continue
        if i < len(codes) and codes[i] == groups[k]:
            i = i + 1
        elif j < len(un) and un[j] == groups[k]:
            j = j + 1
            if k == at:
                h.eq(un, [tok], "all other groups decoded")
        elif twice and PRESSURE.fullmatch(groups[k]) and (
                i < len(codes) and codes[i] == r.pressure.code or groups[k] == r.pressure.code):
            twice = False  # two pressures: the second one counts (see C05)
        else:
            h.check(False, "group %d neither decoded nor unparsed" % k, groups[k], codes, un)
            return
    h.eq((i, j), (len(codes), len(un)), "nothing invented")
