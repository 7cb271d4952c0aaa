"""C24: the text form agrees with the properties."""
from props.common import *
from props.shapes import fill, shape_cases, shape_report
from props.c20 import CAPACITY, REPORTS, full_text

BOUNDS = ("METAR with two trends and TAF with up to eight change periods; each group in turn absent or in each of its forms (those of C20: "
          "regular, with every optional part, missing '/' parts) with every digit arbitrary, the other groups all present, all absent or "
          "in their missing form; every group list with 1..capacity groups; forms with values of zero; every shape of every group (props/shapes.py) with "
          "all digits arbitrary, in METAR, TAF, trend and change period, present weather of 1..5 and recent weather of RE + 2..6 arbitrary letters")
ASSUMPTIONS = ["texts are compared up to the amount of white space", "a number in the text is the value of the property to one decimal",
               "the text of a TAF change period is the text of its change indicator",
               "of two pressure groups both texts are in the text of the report (C05: the second one counts); not generated here"]
EXTRA = {
    "metar": {
        "wind": ("0?005KT", "00010G0?KT", "2?0//G1?KT", "VRB0?KT", "/////G2?MPS", "???/?KT"),
        "cloud": ("BKN///CB", "///00?TCU", "VV///", "OVC??0///", "//////CB", "NSC", "CLR", "VV00?CB"),
        "temperature": ("/////", "??/00", "///0?", "M00/M0?", "XX/0?"),
        "runway range": ("R0?/000?V000?N", "R88/0?00D", "R1?/M000?VP000?FT"),
        "sea state": ("W0?/H00?", "WM??/S0", "W00/H000"),
        "runway state": ("R12///////", "R99/CLRD//", "R88/?599??", "R0?L//1////", "R27/0?00//"),
        "weather": ("-/", "VCSH", "+VCTSRA FZDZ PO", "NSW"),
        "recent weather": ("RESHRA", "REFZDZBR", "RESS"),
        "minimum visibility": ("000?SW", "////E"),
        "pressure": ("Q000?", "A00??"),
    },
    "taf": {"temperature": ("TX00/071?Z TNM00/0801Z",), "cloud": ("BKN000 OVC00?CB",), "wind": ("00000G0?KT", "0?005KT")},
}


def cases(tier):
    out = []
    for ctx in REPORTS:
        gs = REPORTS[ctx]
        for i, (name, forms, missing) in enumerate(gs):
            extra = EXTRA[ctx].get(name, ())
            for f in ("",) + forms + extra:
                out.append({"name": "%s %s %s" % (ctx, name, f or "absent"), "ctx": ctx, "kind": "group", "i": i, "form": f,
                            "may_be_empty": f in extra})
        if tier == "thorough":
            for i in range(len(gs)):
                for j in range(i + 1, len(gs)):
                    out.append({"name": "%s %s and %s" % (ctx, gs[i][0], gs[j][0]), "ctx": ctx, "kind": "pair", "i": i, "j": j})
    for n in range(1, 9):
        out.append({"name": "taf %d change periods" % n, "ctx": "taf", "kind": "full", "n": n})
    for name in CAPACITY:
        for n in range(1, CAPACITY[name] + 1):
            out.append({"name": "metar %d %s" % (n, name), "ctx": "metar", "kind": "full", "n": n, "list": name})
    return out + [c for c in shape_cases(tier) if c.get("group") != "two pressures"]


# --- the texts a reader of the properties expects
def num(v, unit):
    return "" if v is None else "{:.1f}".format(v) + unit


def words(parts):
    return " ".join([p for p in parts if p is not None and p != ""])


def wind_text(w):
    return words([w.cardinal_direction, "variable wind" if w.variable else None,
                  None if w.direction_in_degrees is None else "(" + num(w.direction_in_degrees, "°)"), num(w.speed_in_knot, " kt"),
                  None if w.gust_in_knot is None else "gust of " + num(w.gust_in_knot, " kt")])


def variation_text(v):
    if v.from_in_degrees is None:
        return ""
    return ("from " + v.from_cardinal_direction + " (" + num(v.from_in_degrees, "°)") + " to " + v.to_cardinal_direction + " ("
            + num(v.to_in_degrees, "°)"))


def visibility_text(v):
    where = None
    if v.direction_in_degrees is not None:
        where = "to " + v.cardinal_direction + " (" + num(v.direction_in_degrees, "°)")
    return words([num(v.in_kilometers, " km"), where])


def prevailing_text(v):
    return "Ceiling and Visibility OK" if v.cavok else visibility_text(v)


def range_text(v):
    if v.low_in_meters is None:
        return ""
    d = v.as_dict()
    return words(["runway " + v.name, d["rvr_low"], num(v.low_in_meters, " m")]
                 + ([] if v.high_in_meters is None else ["varying to", d["rvr_high"], num(v.high_in_meters, " m")])) + (
        "" if v.trend is None else ", " + v.trend)


def weather_text(w):
    return words([w.intensity, w.description, w.precipitation, w.obscuration, w.other])


def recent_text(w):
    return words([w.description, w.precipitation, w.obscuration, w.other])


def cloud_text(c):
    height = None
    if c.height_in_feet is not None:
        height = "at " + num(c.height_in_feet, " feet")
    elif c.cover not in ("clear", "undefined", "indefinite ceiling"):
        height = "at undefined height"
    return words([c.cover, height, None if c.cloud_type is None else "of " + c.cloud_type])


def temperatures_text(t):
    a, b = t.temperature_in_celsius, t.dewpoint_in_celsius
    if a is None and b is None:
        return ""
    return words(["no temperature" if a is None else "temperature: " + num(a, "°C"), "|",
                  "no dewpoint" if b is None else "dewpoint: " + num(b, "°C")])


def sea_text(s):
    t, hgt = s.temperature_in_celsius, s.height_in_meters
    if t is None and hgt is None and s.state is None:
        return ""
    return ", ".join(["no temperature" if t is None else "temperature " + num(t, "°C"),
                      "no significant wave height" if hgt is None else "significant wave height " + num(hgt, " m"),
                      "no sea state" if s.state is None else s.state])


def windshear_text(w):
    return w.name if w.name is not None else "all" if w.all_ else ""


def modifier_text(m):
    return "" if m.description is None else m.description.lower()


def valid_text(v):
    return "from " + str(v.period_from.time) + " until " + str(v.period_until.time)


def tx_text(t):
    return words([num(t.in_celsius, "°C"), "at " + str(t.time.time)])


def trend_indicator_text(i):
    if i.translation is None:
        return ""
    if i.period_at is not None:
        return words([i.translation, "at", str(i.period_at.time)])
    return words([i.translation, "from", str(i.period_from.time), "until", str(i.period_until.time)])


def station_text(s):
    return (f"Name: {s.name} | Coordinates: {s.latitude} {s.longitude} | Elevation: {s.elevation} m MSL | Country: {s.country}")


def section_texts(s):
    return ([wind_text(s.wind)] if s.wind.code is not None else []) + (
        [prevailing_text(s.prevailing_visibility)] if s.prevailing_visibility.code is not None else []), (
        [weather_text(w) for w in s.weathers] + [cloud_text(c) for c in s.clouds])


def trend_text(p):
    a, b = section_texts(p)
    return [trend_indicator_text(p.trend_indicator)] + a + b


def change_text(p):
    return [p.change_indicator.translation or ""]


def flat(h, text):
    """The words of the text."""
    return text.split()


def same(h, got, want, lab):
    h.eq(flat(h, got), flat(h, want), lab + " text")


def present(g, text):
    return [text(g)] if g.code is not None else []


def metar_lines(r):
    a, b = section_texts(r)
    n = len(a) if r.wind.code is None else 1
    out = present(r.station, station_text) + present(r.time, lambda t: str(t.time)) + present(r.modifier, modifier_text)
    out += present(r.wind, wind_text) + present(r.wind_variation, variation_text)
    out += present(r.prevailing_visibility, prevailing_text) + present(r.minimum_visibility, visibility_text)
    out += [range_text(x) for x in r.runway_ranges] + b + present(r.temperatures, temperatures_text)
    out += present(r.pressure, lambda p: num(p.in_hPa, " hPa")) + present(r.recent_weather, recent_text)
    out += [windshear_text(w) for w in r.windshears] + present(r.sea_state, sea_text) + present(r.runway_state, str)
    for p in r.weather_trends:
        out += trend_text(p)
    return out


def taf_lines(r):
    out = present(r.modifier, modifier_text) + present(r.station, station_text) + present(r.time, lambda t: str(t.time))
    out += present(r.missing, modifier_text) + present(r.valid, valid_text) + present(r.cancelled, lambda c: "cancelled")
    a, b = section_texts(r)
    out += a + b
    return out


def check_runway_state(h, s):
    text = str(s)
    if s.snoclo:
        h.eq(text, "aerodrome is closed due to extreme deposit of snow", "runway state closed text")
    elif s.clrd is not None:
        h.eq(text, s.clrd, "runway state cleared text")
    elif s.code is None:
        h.eq(text, "", "no runway state text")
    else:
        for lab, v in (("name", s.name), ("deposits", s.deposits), ("contamination", s.contamination), ("depth", s.deposits_depth),
                       ("friction", s.surface_friction)):
            if v is not None:
                h.check(v in text, "runway state %s in text" % lab, text, v)


def check(h, ctx, r):
    for lab, got, want in (("wind", r.wind, wind_text), ("prevailing visibility", r.prevailing_visibility, prevailing_text),
                           ("modifier", r.modifier, modifier_text), ("time", r.time, lambda t: str(t.time)),
                           ("station", r.station, station_text)):
        same(h, str(got), want(got), lab)
    for lab, l, f in (("weathers", r.weathers, weather_text), ("clouds", r.clouds, cloud_text)):
        same(h, str(l), " | ".join([f(x) for x in l]), lab)
        for x in l:
            same(h, str(x), f(x), lab + " item")
    head = [r.type_.type_ + " (" + r.type_.code + ")"] if r.raw_code[:len(r.type_.code)] == r.type_.code else []
    if ctx == "metar":
        for lab, got, want in (("wind variation", r.wind_variation, variation_text),
                               ("minimum visibility", r.minimum_visibility, visibility_text),
                               ("temperatures", r.temperatures, temperatures_text),
                               ("pressure", r.pressure, lambda p: num(p.in_hPa, " hPa")),
                               ("recent weather", r.recent_weather, recent_text), ("sea state", r.sea_state, sea_text)):
            same(h, str(got), want(got), lab)
        same(h, str(r.runway_ranges), " | ".join([range_text(x) for x in r.runway_ranges]), "runway ranges")
        for x in r.runway_ranges:
            same(h, x.low_range, words([x.as_dict()["rvr_low"], num(x.low_in_meters, " m")]) if x.low_in_meters is not None else "",
                 "low range")
            same(h, x.high_range, words([x.as_dict()["rvr_high"], num(x.high_in_meters, " m")]) if x.high_in_meters is not None else "",
                 "high range")
        ws = r.windshears
        same(h, str(ws), "all runways" if len(ws) == 1 and ws[0].all_ else " | ".join([windshear_text(w) for w in ws]), "windshears")
        check_runway_state(h, r.runway_state)
        for p in r.weather_trends:
            same(h, str(p.trend_indicator), trend_indicator_text(p.trend_indicator), "trend indicator")
            same(h, str(p), "\n".join(trend_text(p)), "trend")
        same(h, str(r.weather_trends), "\n".join(["\n".join(trend_text(p)) for p in r.weather_trends]), "trends")
        same(h, str(r), "\n".join(head + metar_lines(r)), "METAR")
        return
    same(h, str(r.valid), valid_text(r.valid), "valid")
    same(h, str(r.missing), modifier_text(r.missing), "missing")
    same(h, str(r.cancelled), "cancelled" if r.cancelled.is_cancelled else "", "cancelled")
    tx, tn = [tx_text(t) for t in r.max_temperatures], [tx_text(t) for t in r.min_temperatures]
    same(h, str(r.max_temperatures), " | ".join(tx), "maximum temperatures")
    same(h, str(r.min_temperatures), " | ".join(tn), "minimum temperatures")
    for p in r.changes_forecasted:
        i = p.change_indicator
        t = i.translation or ""
        if i.code is not None:
            dated = i.code[:2] == "FM" or "/" in i.code
            same(h, t[len(t) - len(valid_text(i.valid)):] if dated else "", valid_text(i.valid) if dated else "", "validity in the change indicator")
        same(h, str(i), t, "change indicator")
        same(h, str(p), t, "change period")
    changes = [str(p.change_indicator) for p in r.changes_forecasted]
    same(h, str(r.changes_forecasted), "\n".join(changes), "changes")
    # the temperatures follow the clouds in the order of the report
    lines = head + taf_lines(r)
    rest = flat(h, str(r))
    start = flat(h, "\n".join(lines))
    end = flat(h, "\n".join(changes))
    middle = flat(h, "\n".join(tx + tn))
    h.eq(rest[:len(start)], start, "TAF text, body")
    h.eq(rest[len(rest) - len(end):], end, "TAF text, changes")
    h.eq(len(rest), len(start) + len(middle) + len(end), "TAF text, length")
    inner = rest[len(start):len(rest) - len(end)]
    for t in tx + tn:
        one = flat(h, t)
        h.check(any([inner[k:k + len(one)] == one for k in range(0, len(inner), 4)]), "TAF text, temperature", inner, one)


def run(h, c):
    h.set_now(2022, 10, 9, 12, 0)
    if c["kind"] in ("shape", "weather", "recent"):
        o = shape_report(h, c)
        if o.kind == "ValueError":  # no such day
            return
        h.eq(o.kind, None, "construction")
        if o.ok:
            check(h, "metar" if c["ctx"] in ("metar", "trend") else "taf", o.value)
        return
    ctx, gs = c["ctx"], REPORTS[c["ctx"]]
    if c["kind"] == "full":
        check(h, ctx, (h.Metar if ctx == "metar" else h.Taf)(full_text(h, c), 2022, 10))
        return
    others = h.choose("others", ("present", "absent", "missing"))
    out = []
    for i in range(len(gs)):
        name, forms, missing = gs[i]
        if c["kind"] == "group" and i == c["i"]:
            form = c["form"]
        elif c["kind"] == "pair" and i in (c["i"], c["j"]):
            all_forms = forms + EXTRA[ctx].get(name, ())
            form = all_forms[h.choose("form%d" % i, tuple(range(len(all_forms))))]
        elif others == "absent":
            form = ""
        elif others == "missing":
            form = missing or ""
            if form != "":
                form = form.replace("?", "2")
        else:
            form = "" if name in ("nil", "cancelled") else forms[0].replace("?", "1")
        if form != "":
            out.append(fill(h, "g%d." % i, form))
    if len(out) == 0:
        return
    o = h.attempt(h.Metar if ctx == "metar" else h.Taf, " ".join(out), 2022, 10)
    if o.kind == "ValueError":  # no such day
        return
    h.eq(o.kind, None, "construction")
    if o.ok:
        check(h, ctx, o.value)
