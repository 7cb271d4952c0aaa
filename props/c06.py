"""C06: present and recent weather groups."""
from props.common import *

BOUNDS = ("present weather: one arbitrary token of 1..9 characters over [A-Z0-9/+-] (8+: not starting with R) in the weather "
          "position of a METAR body, a TAF body, a METAR trend and a TAF change period; recent weather: an arbitrary token of "
          "1..11 characters starting with RE, or of 1..7 arbitrary characters, after the pressure of a METAR; order: three "
          "weather groups, each in turn arbitrary (1..4 characters), and a fourth one, in the same places. Quick tier: the "
          "RE tokens of 10 characters go on with M, T, - or 5, the order cases use items of 2 and 4 characters")
INT = {"-": "light", "+": "heavy", "-VC": "nearby light", "+VC": "nearby heavy", "VC": "nearby"}
DESC = {"MI": "shallow", "PR": "partial", "BC": "patches of", "DR": "low drifting", "BL": "blowing", "SH": "showers",
        "TS": "thunderstorm", "FZ": "freezing"}
PREC = {"DZ": "drizzle", "RA": "rain", "SN": "snow", "SG": "snow grains", "IC": "ice crystals", "PL": "ice pellets",
        "GR": "hail", "GS": "snow pellets", "UP": "unknown precipitation"}
OBSC = {"BR": "mist", "FG": "fog", "FU": "smoke", "VA": "volcanic ash", "DU": "dust", "SA": "sand", "HZ": "haze",
        "PY": "spray"}
OTHER = {"PO": "sand whirls", "SQ": "squalls", "FC": "funnel cloud", "SS": "sandstorm", "DS": "dust storm",
         "NSW": "nil significant weather"}
D = "MI|PR|BC|DR|BL|SH|TS|FZ"
P = "DZ|RA|SN|SG|IC|PL|GR|GS|UP"
WEATHER = re.compile(r"([+-]VC|[+-]|VC)?(%s)?(?:(%s)|(BR|FG|FU|VA|DU|SA|HZ|PY)|(PO|SQ|FC|SS|DS|NSW|/))?" % (D, P))
RECENT = re.compile(r"RE(%s)?(%s)?(BR|FG|VA|DU|SA|HZ|PY)?(PO|SQ|FC|SS|DS)?" % (D, P))


def cases(tier):
    out = []
    for ctx in ("metar", "taf", "trend", "change"):
        for n in range(1, 10):
            out.append({"name": "weather %s len %d" % (ctx, n), "kind": "one", "ctx": ctx, "n": n})
        for i in range(4):
            for n in range(1, 5):
                if tier != "quick" or n in (2, 4):
                    out.append({"name": "order %s item %d len %d" % (ctx, i, n), "kind": "order", "ctx": ctx, "i": i, "n": n})
    for n in range(1, 12):
        if n <= 7:
            out.append({"name": "recent len %d" % n, "kind": "recent", "n": n})
        if n >= 2:
            out.append({"name": "recent RE len %d" % n, "kind": "recentre", "n": n, "few": tier == "quick" and n == 10})
    return out


def get(table, k):
    return None if k is None else table.get(k)


def weather_ref(tok):
    if tok == "":
        return None
    m = WEATHER.fullmatch(tok)
    if not m:
        return None
    return (get(INT, m.group(1)), get(DESC, m.group(2)), get(PREC, m.group(3)), get(OBSC, m.group(4)),
            get(OTHER, m.group(5)))


def check_weather(h, w, code, ref, lab="weather"):
    h.eq(w.code, code, lab + " code")
    h.eq(w.intensity, ref[0], lab + " intensity")
    h.eq(w.description, ref[1], lab + " description")
    h.eq(w.precipitation, ref[2], lab + " precipitation")
    h.eq(w.obscuration, ref[3], lab + " obscuration")
    h.eq(w.other, ref[4], lab + " other")


def run(h, c):
    if c["kind"] == "one":
        tok = token(h, "tok", c["n"])
        r, s = section(h, c["ctx"], tok)
        ref = weather_ref(tok)
        h.eq(len(s.weathers), 0 if ref is None else 1, "number of weathers")
        if ref is not None:
            check_weather(h, s.weathers[0], tok, ref)
        return
    if c["kind"] == "order":
        toks = ["-SHRA", "BCFG", "VCTS", "+TSGR"]
        toks[c["i"]] = h.str("tok", c["n"], ALNUM)
        # words that open another section or group kind are other properties' concern
        h.assume(weather_ref(toks[c["i"]]) is not None)
        r, s = section(h, c["ctx"], "9999 " + " ".join(toks))
        h.eq(s.weathers.codes, toks[:3], "codes in report order")
        h.eq(r.unparsed_groups, toks[3:], "fourth weather is not parsed")
        for i in range(3):
            check_weather(h, s.weathers[i], toks[i], weather_ref(toks[i]), "weather %d" % i)
        return
    if c["kind"] == "recent":
        tok = token(h, "tok", c["n"])
    else:
        tail = [ALNUM] * (c["n"] - 2)
        if c["few"]:
            tail[0] = "MT-5"
        tok = "RE" + h.str("tail", c["n"] - 2, tail)
    r = h.Metar(MS + tok)
    m = RECENT.fullmatch(tok)
    w = r.recent_weather
    h.eq(w.code, tok if m else None, "recent code")
    h.eq(w.description, get(DESC, m.group(1)) if m else None, "recent description")
    h.eq(w.precipitation, get(PREC, m.group(2)) if m else None, "recent precipitation")
    h.eq(w.obscuration, get(OBSC, m.group(3)) if m else None, "recent obscuration")
    h.eq(w.other, get(OTHER, m.group(4)) if m else None, "recent other")
    h.eq(len(r.weathers), 0, "no present weather")
