"""C20: dictionary and JSON exports agree with the properties."""
import json

from props.common import *
from props.shapes import fill, shape_cases, shape_report

BOUNDS = ("METAR with two trends and TAF with three change periods; each group in turn absent or in each of its forms (regular, with every "
          "optional part, missing '/' parts) with every digit arbitrary, the other groups all present, all absent or in their missing "
          "form; every group list with 1..capacity groups (up to eight change periods); every shape of every group (props/shapes.py) with all digits arbitrary, in METAR, TAF, trend and change period, present weather of 1..5 and recent weather of RE + 2..6 arbitrary letters; report, change period, group and part dictionaries, and the JSON of each decoded")
ASSUMPTIONS = ["json.dumps and json.loads are inverse on the exported tree (the library is not encoded)",
               "the dictionary of a METAR pressure has no code entry"]
METAR = (
    ("type", ("METAR", "SPECI"), None),
    ("station", ("PADK", "ZZZZ"), None),
    ("time", ("07??00Z",), None),
    ("modifier", ("AUTO", "COR", "NIL"), None),
    ("wind", ("1?0??KT", "VRB??G??MPS", "/////KT", "00000KT", "?20P99KT"), "/////KT"),
    ("wind variation", ("0?0V1?0", "3?0V??0",), None),
    ("visibility", ("????", "CAVOK", "////", "?SM", "P6SM", "? 1/2SM", "9999", "0?00NE", "1?KM"), "////"),
    ("minimum visibility", ("????NE", "2?00S"), None),
    ("runway range", ("R1?/0?00", "R24L/P1?00V2000D", "R0?/M0?00FT", "R12C/1?00V2?00U", "R01R////// R02/0500N"), "R1?//////"),
    ("weather", ("RA", "-SHRA BR", "+TSRA VCFG HZ", "SNOW RA"), None),
    ("cloud", ("FEW0??", "SCT0?0TCU BKN0?0CB OVC???", "VV00?", "///", "BKN///", "SKC", "NSC", "VV///", "////// FEW020///"), "//////"),
    ("temperature", ("??/??", "M??/M0?", "?5///", "/////"), "/////"),
    ("pressure", ("Q????", "A????", "Q////", "QNH????INS", "2992"), "Q////"),
    ("recent weather", ("RERA", "RETS", "RE//"), None),
    ("windshear", ("WS R?2", "WS R12L WS RWY0?C", "WS ALL RWY"), None),
    ("sea state", ("W1?/S?", "WM0?/H1?", "W///S/", "W15/H///"), "W///S/"),
    ("runway state", ("R12/??1292", "R12/?51??2", "R12/4512??", "R1?/CLRD//", "R/SNOCLO", "R88/451?92"), "R12///////"),
    ("trend", ("NOSIG", "TEMPO FM1?30 20010KT RA", "BECMG AT1?00 FEW0?0 TEMPO TL1?30 ????", "TEMPO 2 1/2SM -RA SCT010 OVC020"), None),
    ("remark", ("RMK AO2 SLP1?2", "RMK"), None),
)
TAF = (
    ("type", ("TAF", "TAF COR", "TAF AMD"), None),
    ("station", ("PADK", "ZZZZ"), None),
    ("time", ("07??30Z",), None),
    ("nil", ("NIL",), None),
    ("valid", ("071?/080?", "0700/0724", "0712/0812"), None),
    ("cancelled", ("CNL",), None),
    ("wind", ("1?0??KT", "VRB??G??MPS", "00000KT"), None),
    ("visibility", ("????", "CAVOK", "?SM", "P6SM", "? 1/2SM"), None),
    ("weather", ("RA", "-SHRA BR", "+TSRA VCFG HZ", "NSW"), None),
    ("cloud", ("FEW0??", "SCT0?0TCU BKN0?0CB OVC???", "VV00?", "SKC", "NSC"), None),
    ("temperature", ("TX??/071?Z TNM0?/080?Z", "TX2?/0715Z", "TN1?/0715Z TX1?/0716Z TNM1?/0717Z TX00/0718Z"), None),
    ("change", ("FM071?00 2?010KT", "TEMPO 0714/071? 2000 RA BECMG 0716/0718 OVC0?0", "PROB30 TEMPO 0714/0716 TSRA FM071?30 9999 PROB40 0720/072? FG"),
     None),
)
REPORTS = {"metar": METAR, "taf": TAF}


def cases(tier):
    out = [{"name": "taf temperature code", "ctx": "taf", "kind": "txcode"}]
    for n in range(1, 9):
        out.append({"name": "taf %d change periods" % n, "ctx": "taf", "kind": "full", "n": n})
    for name in CAPACITY:
        for n in range(1, CAPACITY[name] + 1):
            out.append({"name": "metar %d %s" % (n, name), "ctx": "metar", "kind": "full", "n": n, "list": name})
    for ctx in REPORTS:
        gs = REPORTS[ctx]
        for i, (name, forms, missing) in enumerate(gs):
            for k in range(-1, len(forms)):
                f = forms[k] if k >= 0 else "absent"
                out.append({"name": "%s %s %s" % (ctx, name, f), "ctx": ctx, "kind": "group", "i": i, "k": k})
        if tier == "thorough":
            for i in range(len(gs)):
                for j in range(i + 1, len(gs)):
                    out.append({"name": "%s %s and %s" % (ctx, gs[i][0], gs[j][0]), "ctx": ctx, "kind": "pair", "i": i, "j": j})
    return out + shape_cases(tier)


CAPACITY = {"runway ranges": 3, "weathers": 3, "clouds": 4, "windshears": 3, "trends": 2}
MEMBERS = {"runway ranges": ("R0?/0400", "R1?L/P1500D", "R2?R/0200V0600"), "weathers": ("-RA", "BR", "HZ"),
           "clouds": ("FEW0?0", "SCT0?5TCU", "BKN1?0", "OVC2?0CB"), "windshears": ("WS R0?", "WS R1?L", "WS R2?R"),
           "trends": ("TEMPO FM1?30 2000", "BECMG TL15?0 OVC010")}
CHANGES = ("FM071?00 20010KT", "TEMPO 0714/071? 2000 RA", "BECMG 0716/0718 OVC0?0", "PROB30 0716/071? FG", "PROB40 TEMPO 0718/0720 +TSRA BKN01?CB",
           "FM0720?0 CAVOK", "TEMPO 0720/072? 3000", "BECMG 072?/0724 SKC")


def full_text(h, c):
    n = c["n"]
    if c["ctx"] == "taf":
        return "TAF PADK 071130Z 0712/0812 10005KT 9999 FEW020 " + " ".join([fill(h, "m%d." % k, CHANGES[k]) for k in range(n)])
    words = ["METAR PADK 071400Z 10005KT 9999"]
    for name in CAPACITY:
        if name == "windshears":
            words.append("25/20 Q1012")
        if name == c["list"]:
            words += [fill(h, "m%d." % k, MEMBERS[name][k]) for k in range(n)]
        elif name != "trends":
            words.append(MEMBERS[name][0].replace("?", "1"))
    return " ".join(words)


# --- the dictionaries a reader of the properties expects
def direction(x, card, var, deg):
    return {"cardinal": card, "variable": var, "units": "degrees", "direction": deg}


def speed(v):
    return {"units": "knot", "speed": v}


def dist(v):
    return {"units": "meters", "distance": v}


def temp(v):
    return {"units": "celsius", "temperature": v}


def coded(o, d):
    d["code"] = o.code
    return d


def d_time(t):
    return coded(t, {"datetime": str(t.time)})


def d_wind(w):
    return coded(w, {"direction": direction(w, w.cardinal_direction, w.variable, w.direction_in_degrees),
                     "speed": speed(w.speed_in_knot), "gust": speed(w.gust_in_knot)})


def d_variation(v):
    return coded(v, {"from_": direction(v, v.from_cardinal_direction, False, v.from_in_degrees),
                     "to": direction(v, v.to_cardinal_direction, False, v.to_in_degrees)})


def d_minimum(v):
    return coded(v, {"visibility": dist(v.in_meters), "direction": direction(v, v.cardinal_direction, False, v.direction_in_degrees)})


def d_prevailing(v):
    d = d_minimum(v)
    d["cavok"] = v.cavok
    return d


def d_rvr(v):
    # low_range and high_range are texts that start with the modifier
    d = v.as_dict()
    return coded(v, {"name": v.name, "rvr_low": d["rvr_low"], "low_range": dist(v.low_in_meters), "rvr_high": d["rvr_high"],
                     "high_range": dist(v.high_in_meters), "trend": v.trend})


def d_weather(w):
    return coded(w, {"intensity": w.intensity, "description": w.description, "precipitation": w.precipitation,
                     "obscuration": w.obscuration, "other": w.other})


def d_recent(w):
    return coded(w, {"description": w.description, "obscuration": w.obscuration, "other": w.other, "precipitation": w.precipitation})


def d_cloud(c):
    return coded(c, {"cover": c.cover, "oktas": c.oktas, "height_units": "meters", "height": c.height_in_meters, "type": c.cloud_type})


def d_temperatures(t):
    return coded(t, {"temperature": temp(t.temperature_in_celsius), "dewpoint": temp(t.dewpoint_in_celsius)})


def d_pressure(p):
    return {"units": "hectopascals", "pressure": p.in_hPa}


def d_windshear(w):
    return coded(w, {"all": w.all_, "name": w.name})


def d_sea(s):
    return coded(s, {"state": s.state, "temperature": temp(s.temperature_in_celsius), "height": dist(s.height_in_meters)})


def d_runway(s):
    return coded(s, {"name": s.name, "deposits": s.deposits, "contamination": s.contamination, "deposits_depth": s.deposits_depth,
                     "surface_friction": s.surface_friction, "snoclo": s.snoclo, "clrd": s.clrd})


def d_valid(v):
    return coded(v, {"from_": d_time(v.period_from), "until": d_time(v.period_until)})


def d_tx(t):
    d = {"units": "celsius", "temperature": t.in_celsius, "datetime": str(t.time.time), "code": t.as_dict()["code"]}
    return d


def d_trend_indicator(i):
    return coded(i, {"forecast_period": {"init": d_time(i.forecast_period[0]), "end": d_time(i.forecast_period[1])},
                     "from_": d_time(i.period_from), "until": d_time(i.period_until),
                     "at": None if i.period_at is None else d_time(i.period_at), "translation": i.translation})


def d_change_indicator(i):
    return coded(i, {"valid": d_valid(i.valid), "translation": i.translation})


LABELS = ("first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth")


def d_list(l, f):
    return {LABELS[k]: f(l[k]) for k in range(len(l))}


def d_change(p):
    return coded(p, {"wind": d_wind(p.wind), "prevailing_visibility": d_prevailing(p.prevailing_visibility),
                     "weathers": [d_weather(w) for w in p.weathers], "clouds": [d_cloud(c) for c in p.clouds],
                     "flight_rules": p.flight_rules})


def d_station(s):
    return coded(s, {"name": s.name, "icao": s.icao, "iata": s.iata, "synop": s.synop, "latitude": s.latitude,
                     "longitude": s.longitude, "elevation": s.elevation, "country": s.country})


def d_report(r):
    return {"code": r.raw_code, "sections": r.sections, "unparsed_groups": r.unparsed_groups,
            "type_": coded(r.type_, {"type": r.type_.type_}), "station": d_station(r.station), "time": d_time(r.time),
            "modifier": coded(r.modifier, {"modifier": r.modifier.description}), "wind": d_wind(r.wind),
            "prevailing_visibility": d_prevailing(r.prevailing_visibility), "weathers": d_list(r.weathers, d_weather),
            "clouds": d_list(r.clouds, d_cloud)}


def d_metar(r):
    d = d_report(r)
    d.update({"wind_variation": d_variation(r.wind_variation), "minimum_visibility": d_minimum(r.minimum_visibility),
              "runway_ranges": d_list(r.runway_ranges, d_rvr), "temperatures": d_temperatures(r.temperatures),
              "pressure": d_pressure(r.pressure), "recent_weather": d_recent(r.recent_weather),
              "windshears": d_list(r.windshears, d_windshear), "sea_state": d_sea(r.sea_state),
              "runway_state": d_runway(r.runway_state), "flight_rules": r.flight_rules,
              "weather_trends": d_list(r.weather_trends, d_change), "remark": r.remark})
    return d


def d_taf(r):
    d = d_report(r)
    d.update({"missing": coded(r.missing, {"is_missing": r.missing.is_missing, "modifier": r.missing.description}),
              "valid": d_valid(r.valid), "cancelled": coded(r.cancelled, {"is_cancelled": r.cancelled.is_cancelled}),
              "max_temperatures": d_list(r.max_temperatures, d_tx), "min_temperatures": d_list(r.min_temperatures, d_tx),
              "changes_forecasted": d_list(r.changes_forecasted, d_change)})
    return d


def export(h, o, want, lab):
    h.eq(o.as_dict(), want, lab + " dictionary")
    h.eq(json.loads(o.to_json()), want, lab + " JSON")


def check(h, ctx, r):
    parts = [("wind", r.wind, d_wind), ("prevailing visibility", r.prevailing_visibility, d_prevailing), ("time", r.time, d_time),
             ("station", r.station, d_station)]
    lists = [("weathers", r.weathers, d_weather), ("clouds", r.clouds, d_cloud)]
    if ctx == "metar":
        export(h, r, d_metar(r), "METAR")
        parts += [("wind variation", r.wind_variation, d_variation), ("minimum visibility", r.minimum_visibility, d_minimum),
                  ("temperatures", r.temperatures, d_temperatures), ("pressure", r.pressure, d_pressure),
                  ("recent weather", r.recent_weather, d_recent), ("sea state", r.sea_state, d_sea),
                  ("runway state", r.runway_state, d_runway)]
        lists += [("runway ranges", r.runway_ranges, d_rvr), ("windshears", r.windshears, d_windshear),
                  ("trends", r.weather_trends, d_change)]
        for p in r.weather_trends:
            export(h, p.trend_indicator, d_trend_indicator(p.trend_indicator), "trend indicator")
        for x in r.runway_ranges:
            d = x.as_dict()
            low = x.code.split("/")[1]
            high = low.split("V")[1] if "V" in low else "?"
            for side, part in (("rvr_low", low), ("rvr_high", high)):
                h.eq(d[side], "below of" if part[0] == "M" else "above of" if part[0] == "P" else None, "runway range " + side)
    else:
        export(h, r, d_taf(r), "TAF")
        parts += [("missing", r.missing, lambda m: coded(m, {"is_missing": m.is_missing, "modifier": m.description})),
                  ("cancelled", r.cancelled, lambda m: coded(m, {"is_cancelled": m.is_cancelled})), ("valid", r.valid, d_valid)]
        lists += [("maximum temperatures", r.max_temperatures, d_tx), ("minimum temperatures", r.min_temperatures, d_tx),
                  ("changes", r.changes_forecasted, d_change)]
        for p in r.changes_forecasted:
            export(h, p.change_indicator, d_change_indicator(p.change_indicator), "change indicator")
        for t in list(r.max_temperatures) + list(r.min_temperatures):
            c = t.as_dict()["code"]
            if c is not None:
                h.eq(c, t.code, "temperature code")
    for lab, o, f in parts:
        export(h, o, f(o), lab)
    for lab, o, f in lists:
        export(h, o, d_list(o, f), lab)
        for x in o:
            export(h, x, f(x), lab + " item")


def run(h, c):
    h.set_now(2022, 10, 9, 12, 0)
    if c["kind"] in ("shape", "weather", "recent"):
        o = shape_report(h, c)
        if o.kind == "ValueError":  # no such day
            return
        h.eq(o.kind, None, "construction")
        if o.ok:
            check(h, "metar" if c["ctx"] in ("metar", "trend") else "taf", o.value)
        return
    ctx, gs = c["ctx"], REPORTS[c["ctx"]]
    if c["kind"] == "txcode":
        t = h.Taf(TH + "TX25/0715Z", 2022, 10).max_temperatures[0]
        h.eq(t.as_dict()["code"], t.code, "code in the dictionary of a TAF temperature")
        return
    if c["kind"] == "full":
        r = (h.Metar if ctx == "metar" else h.Taf)(full_text(h, c), 2022, 10)
        l = r.changes_forecasted if ctx == "taf" else {"runway ranges": r.runway_ranges, "weathers": r.weathers, "clouds": r.clouds,
                                                       "windshears": r.windshears, "trends": r.weather_trends}[c["list"]]
        h.eq(len(l), c["n"], "number of groups")
        check(h, ctx, r)
        return
    others = h.choose("others", ("present", "absent", "missing"))
    words = []
    for i in range(len(gs)):
        name, forms, missing = gs[i]
        if c["kind"] == "group" and i == c["i"]:
            form = forms[c["k"]] if c["k"] >= 0 else ""
        elif c["kind"] == "pair" and i in (c["i"], c["j"]):
            k = h.choose("form%d" % i, tuple(range(len(forms))))
            form = forms[k]
        elif others == "absent":
            form = ""
        elif others == "missing":
            form = missing or ""
            if form != "":
                form = form.replace("?", "2")
        else:
            form = "" if name in ("nil", "cancelled") else forms[0].replace("?", "1")
        if form != "":
            words.append(fill(h, "g%d." % i, form))
    if len(words) == 0:
        return
    o = h.attempt(h.Metar if ctx == "metar" else h.Taf, " ".join(words), 2022, 10)
    if o.kind == "ValueError":  # no such day
        return
    h.eq(o.kind, None, "construction")
    if o.ok:
        check(h, ctx, o.value)
