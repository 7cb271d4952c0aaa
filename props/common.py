"""Reference models shared by the harnesses (plain Python; symbolic when the inputs are)."""
import math
import re
from fractions import Fraction

STATION = "PADK"  # first entry of the station database
MH = "METAR PADK 071400Z "
TH = "TAF PADK 071130Z 0712/0812 "
MS = MH + "10005KT 9999 FEW020 25/20 Q1012 "

def fix(x):
    """x itself; a symbolic value is split into its possible values."""
    f = getattr(x, "fix", None)
    return x if f is None else f()


def leap(y):
    return (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))


def is_date(y, m, d):
    """Condition (without branching) that day d >= 1 exists in month m of year y."""
    return (d <= 28) | ((d == 29) & ((m != 2) | leap(y))) | ((d == 30) & (m != 2)) | (
        (d == 31) & ((m == 1) | (m == 3) | (m == 5) | (m == 7) | (m == 8) | (m == 10) | (m == 12)))


PI = Fraction(math.pi)
KT_MPS = Fraction(1852, 3600)
KT_KPH = Fraction(1852, 1000)
KT_MPH = Fraction(1852000, 1609344)
FT = Fraction(3048, 10000)
SM = 1852
POINTS = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]


def compass(deg):
    """The compass point whose sector [p*22.5-11.25, p*22.5+11.25) contains deg (whole degrees)."""
    return POINTS[((deg * 100 + 1125) // 2250) % 16]


def times(x, f):
    """x * f with None propagated."""
    return None if x is None else x * f


DIGITS = "0123456789"
ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+-"


def token(h, name, n, runway=False):
    """An arbitrary token; from 8 characters on not of the runway shape R.../... unless asked for."""
    if n >= 8 and not runway:
        return h.str(name, n, [ALNUM.replace("R", "")] + [ALNUM] * (n - 1))
    return h.str(name, n, ALNUM)


# --- a token in its context: (name, text before, text after, how to get the section object, is_taf)
def section(h, ctx, tok):
    """Build a report with tok in the given context and return (report, section object)."""
    if ctx == "metar":
        r = h.Metar(MH + tok)
        return r, r
    if ctx == "taf":
        r = h.Taf(TH + tok)
        return r, r
    if ctx == "trend":
        r = h.Metar(MS + "TEMPO " + tok)
        return r, (r.weather_trends[0] if len(r.weather_trends) else None)
    r = h.Taf(TH + "10005KT 9999 FEW020 TEMPO 0714/0718 " + tok)
    return r, (r.changes_forecasted[0] if len(r.changes_forecasted) else None)


# --- directions and speeds
def check_dir(h, lab, card, deg, rad, grad, want):
    """want: whole degrees or None."""
    h.eq(deg, want, lab + " degrees")
    h.close(rad, times(want, PI / 180), lab + " radians")
    h.close(grad, times(want, Fraction(10, 9)), lab + " gradians")
    h.eq(card, None if want is None else compass(want), lab + " cardinal")


def check_speed(h, lab, kt, mps, kph, mph, want, exact):
    """want: knots (exact rational) or None."""
    if exact:
        h.eq(kt, want, lab + " knots")
    else:
        h.close(kt, want, lab + " knots")
    h.close(mps, times(want, KT_MPS), lab + " m/s")
    h.close(kph, times(want, KT_KPH), lab + " km/h")
    h.close(mph, times(want, KT_MPH), lab + " mph")


def check_wind(h, w, code, d, var, spd, gust, mps, lab="wind"):
    """d whole degrees / None; spd, gust coded integers / None; mps: coded in metres per second."""
    f = Fraction(3600, 1852)
    h.eq(w.code, code, lab + " code")
    check_dir(h, lab + " direction", w.cardinal_direction, w.direction_in_degrees, w.direction_in_radians,
              w.direction_in_gradians, d)
    h.eq(w.variable, var, lab + " variable")
    check_speed(h, lab + " speed", w.speed_in_knot, w.speed_in_mps, w.speed_in_kph, w.speed_in_miph,
                times(spd, f) if mps else spd, not mps)
    check_speed(h, lab + " gust", w.gust_in_knot, w.gust_in_mps, w.gust_in_kph, w.gust_in_miph,
                times(gust, f) if mps else gust, not mps)


METAR_WIND = re.compile(r"(VRB|///|[0-2][0-9]0|3[0-6]0)P?([0-9]{2,3}|//|///)(?:GP?([0-9]{2,3}))?(KT|MPS)")
TAF_WIND = re.compile(r"(VRB|[0-2][0-9]0|3[0-6]0)P?([0-9]{2,3})(?:GP?([0-9]{2,3}))?(KT|MPS)")


def wind_ref(tok, taf):
    """(direction, variable, speed, gust, mps) of a wind token, or None."""
    m = (TAF_WIND if taf else METAR_WIND).fullmatch(tok)
    if not m:
        return None
    d = m.group(1)
    var = d == "VRB"
    deg = None if d == "VRB" or d == "///" else int(d)
    s = m.group(2)
    spd = None if s == "//" or s == "///" else int(s)
    g = m.group(3)
    return deg, bool(var), spd, None if g is None else int(g), m.group(4) == "MPS"


def check_wind_token(h, w, tok, taf, lab="wind"):
    r = wind_ref(tok, taf)
    if r is None:
        check_wind(h, w, None, None, False, None, None, False, lab)
    else:
        check_wind(h, w, tok, *r, lab=lab)


# --- distances
def check_distance(h, lab, v, want):
    """v has in_meters...; want: metres (exact rational) or None."""
    h.close(v.in_meters, want, lab + " m")
    h.close(v.in_kilometers, times(want, Fraction(1, 1000)), lab + " km")
    h.close(v.in_sea_miles, times(want, Fraction(1, 1852)), lab + " nautical miles")
    h.close(v.in_feet, times(want, 1 / FT), lab + " ft")


POINT8 = {"N": 360, "NE": 45, "E": 90, "SE": 135, "S": 180, "SW": 225, "W": 270, "NW": 315}
METRES = re.compile(r"([0-9]{4}|////)(N|NE|E|SE|S|SW|W|NW)?")
UNITS = re.compile(r"[MP]?([0-9]{1,2})?(?:([0-9])/([1-9]))?(SM|KM|M|U)")


def metres(g):
    return None if g == "////" else 10000 if g == "9999" else int(g)


def vis_ref(tok, taf=False):
    """(metres, direction, cavok) of a visibility token, or None. taf: the body of a TAF, which has no ////"""
    if tok == "CAVOK":
        return 10000, None, True
    m = METRES.fullmatch(tok)
    if m and not (taf and m.group(1) == "////"):
        return metres(m.group(1)), m.group(2), False
    m = UNITS.fullmatch(tok)
    if m:
        return unit_distance(m.group(1), m.group(2), m.group(3), m.group(4)), None, False
    return None


def unit_distance(whole, num, den, unit):
    """Metres of [whole] [num/den] unit; None without a number or with the unknown unit U."""
    if (whole is None and num is None) or unit == "U":
        return None
    v = 0
    if whole is not None:
        v = int(whole)
    if num is not None:
        q = fix(int(den))
        v = (v * q + fix(int(num))) * Fraction(1, q)
    return v * (SM if unit == "SM" else 1000 if unit == "KM" else 1)


def check_visibility(h, v, code, ref, lab="visibility", cavok=True):
    h.eq(v.code, code, lab + " code")
    want, point, cav = ref if ref is not None else (None, None, False)
    check_distance(h, lab, v, want)
    h.eq(v.cardinal_direction, point, lab + " cardinal")
    d = None if point is None else POINT8[point]
    h.eq(v.direction_in_degrees, d, lab + " degrees")
    h.close(v.direction_in_radians, times(d, PI / 180), lab + " radians")
    h.close(v.direction_in_gradians, times(d, Fraction(10, 9)), lab + " gradians")
    if cavok:
        h.eq(v.cavok, cav, lab + " cavok")


# --- clouds
COVERS = {"SKC": ("clear", "undefined"), "CLR": ("clear", "undefined"), "NSC": ("clear", "not specified"),
          "NCD": ("clear", "not specified"), "FEW": ("a few", "1-2"), "SCT": ("scattered", "3-4"), "BKN": ("broken", "5-7"),
          "OVC": ("overcast", "8"), "0VC": ("overcast", "8"), "VV": ("indefinite ceiling", "undefined"),
          "///": ("undefined", "undefined")}
CLOUD = re.compile(r"(SKC|CLR|NSC|NCD|FEW|SCT|BKN|OVC|0VC|VV|///)([0-9]{3}|///)?(TCU|CB|///)?")


def cloud_ref(tok):
    """(cover, oktas, feet, type) of a cloud token, or None."""
    m = CLOUD.fullmatch(tok)
    if not m:
        return None
    cover, oktas = COVERS[m.group(1)]
    hs = m.group(2)
    feet = None if hs is None or hs == "///" else int(hs) * 100
    t = m.group(3)
    typ = "towering cumulus" if t == "TCU" else "cumulonimbus" if t == "CB" else None
    return cover, oktas, feet, typ
