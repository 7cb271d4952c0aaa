"""C25: quantity objects agree in every unit."""
from props.common import *

BOUNDS = ("Distance, Temperature, Pressure, Direction and Speed built from every code of the listed shapes (up to five digits, one "
          "decimal, a sign for temperatures, slashes, letters, None); every cardinal point and every other word of 1..4 letters (thorough 1..6) over NESWX and 0..3 (thorough 0..4) over NESWnesw, blank and 3; "
          "conversions of every whole number -9999..9999 and of tenths -999.9..999.9; the factor of every pair of units on 0..9999")
ASSUMPTIONS = ["units are compared with the physical factors within 2e-6 relative, inHg within 1e-5 (the documented 0.02953)",
               "directions of 0..360 degrees"]
INHG = Fraction(33863886667, 10 ** 9)
UNKNOWN = (None, "//", "///")
TOL = Fraction(1, 10 ** 5)


def cases(tier):
    out = []
    for q, shapes in (("Distance", ("?", "??", "???", "????", "?????", "?.?", "????.?", "///", "XX")),
                      ("Temperature", ("??", "???", "-??", "-???", "XX", "MM")),
                      ("Pressure", ("???", "????", "????.?", "XX")),
                      ("Speed", ("??", "???", "??.?")),
                      ("Direction", ("??", "???", "VRB"))):
        for s in shapes:
            out.append({"name": "%s %s" % (q, s), "kind": q, "shape": s})
        for s in UNKNOWN + (("////",) if q in ("Distance", "Pressure") else ()):
            out.append({"name": "%s unknown %s" % (q, s), "kind": q, "shape": s})
    for s in ("??", "VRB", "///", None):
        for k in ("??", "???", "//", None):
            out.append({"name": "Wind %s %s" % (s, k), "kind": "Wind", "shape": s, "speed": k})
    for i in range(0, len(POINTS), 4):
        out.append({"name": "cardinal %s" % " ".join(POINTS[i:i + 4]), "kind": "point", "points": POINTS[i:i + 4]})
    for n in range(1, 5 if tier == "quick" else 7):
        out.append({"name": "cardinal word %d" % n, "kind": "word", "n": n, "alphabet": "NESWX"})
    for n in range(0, 4 if tier == "quick" else 5):
        out.append({"name": "cardinal word %d in any letters" % n, "kind": "word", "n": n, "alphabet": "NESWnesw 3"})
    for n in range(3):
        out.append({"name": "converted %d" % n, "kind": "converted", "n": n})
    out.append({"name": "temperature conversions", "kind": "conv", "tenths": False})
    out.append({"name": "temperature conversions of tenths", "kind": "conv", "tenths": True})
    out.append({"name": "conversion factors", "kind": "factors"})
    return out


def build(h, shape, name="v"):
    """(code, value in tenths or None) of a shape."""
    if shape is None or "?" not in shape:
        return shape, None
    neg = shape.startswith("-")
    body = shape[1:] if neg else shape
    if "." in body:
        w, f = body.split(".")
        a, b = h.digits(name, len(w)), h.digits(name + "f", len(f))
        v = int(a + b)
        code = a + "." + b
    else:
        code = h.digits(name, len(body))
        v = int(code) * 10
    return ("-" + code, -v) if neg else (code, v)


def val(v, d=10):
    return None if v is None else v * Fraction(1, d)


def check_temp(h, lab, t, c):
    h.close(t.in_celsius, c, lab + " celsius")
    h.close(t.value, c, lab + " value")
    h.close(t.in_kelvin, None if c is None else c + Fraction(27315, 100), lab + " kelvin")
    h.close(t.in_fahrenheit, None if c is None else c * Fraction(9, 5) + 32, lab + " fahrenheit")
    h.close(t.in_rankine, None if c is None else (c + Fraction(27315, 100)) * Fraction(9, 5), lab + " rankine")
    h.eq(t.as_dict(), {"units": "celsius", "temperature": t.in_celsius}, lab + " dictionary")


def run(h, c):
    k = c["kind"]
    if k == "Distance":
        code, v = build(h, c["shape"])
        d = h.models.Distance(code)
        want = val(v)
        if want is not None and code == "9999":
            want = 10000
        h.close(d.value, want, "value")
        check_distance(h, "distance", d, want)
        h.eq(d.as_dict(), {"units": "meters", "distance": d.in_meters}, "dictionary")
    elif k == "Temperature":
        code, v = build(h, c["shape"])
        # two digits are whole degrees, three are tenths of a degree
        if v is not None:
            v = v if len(code.replace("-", "")) == 2 else v * Fraction(1, 10)
        check_temp(h, "temperature", h.models.Temperature(code), val(v))
    elif k == "Pressure":
        code, v = build(h, c["shape"])
        p = h.models.Pressure(code)
        want = val(v)
        h.close(p.value, want, "value")
        h.close(p.in_hPa, want, "hPa")
        h.close(p.in_mbar, want, "mbar")
        h.close(p.in_bar, times(want, Fraction(1, 1000)), "bar")
        h.close(p.in_atm, times(want, Fraction(100, 101325)), "atm")
        h.close(p.in_inHg, times(want, 1 / INHG), "inHg", TOL)
        h.eq(p.as_dict(), {"units": "hectopascals", "pressure": p.in_hPa}, "dictionary")
    elif k == "Speed":
        code, v = build(h, c["shape"])
        s = h.models.Speed(code)
        check_speed(h, "speed", s.in_knot, s.in_mps, s.in_kph, s.in_miph, val(v), False)
        h.eq(s.as_dict(), {"units": "knot", "speed": s.in_knot}, "dictionary")
    elif k == "Direction":
        code, v = build(h, c["shape"])
        deg = None
        if v is not None:
            deg = int(code) if len(code) == 3 else int(code) * 10
            h.assume(deg <= 360)
        d = h.models.Direction(code)
        direction(h, d, deg, code == "VRB")
    elif k == "Wind":
        code, v = build(h, c["shape"], "d")
        sp, s = build(h, c["speed"], "s")
        deg = None
        if v is not None:
            deg = int(code) * 10
            h.assume(deg <= 360)
        w = h.models.Wind(code, sp)
        check_dir(h, "wind", w.cardinal_direction, w.direction_in_degrees, w.direction_in_radians, w.direction_in_gradians, deg)
        h.eq(w.variable, code == "VRB", "wind variable")
        check_speed(h, "wind", w.speed_in_knot, w.speed_in_mps, w.speed_in_kph, w.speed_in_miph, val(s), False)
    elif k == "point":
        for p in c["points"]:
            d = h.models.Direction.from_cardinal(p)
            h.eq(d.cardinal, p, "cardinal point")
            h.close(d.in_degrees, Fraction(POINTS.index(p) * 45 or 720, 2), "degrees of a cardinal point", 0, Fraction(1, 2))
            direction(h, d, d.in_degrees, False)
    elif k == "word":
        w = h.str("word", c["n"], c["alphabet"])
        o = h.attempt(h.models.Direction.from_cardinal, w)
        known = False
        for p in POINTS:
            known = known | (w == p)
        h.check(known == (o.kind is None), "only cardinal points have a direction")
        if o.kind is None:
            h.eq(o.value.cardinal, w, "cardinal of the word")
        else:
            h.eq(o.kind, "ValueError", "error")
    elif k == "converted":
        code = h.digits("v", 4)
        v = int(code)
        d = h.models.Distance(code) if c["n"] == 0 else h.models.Pressure(code) if c["n"] == 1 else h.models.Speed(code)
        if c["n"] == 0:
            h.assume(v != 9999)
        f = h.int("factor", 1, 9)
        f = fix(f)
        h.close(d.converted(factor=f), v * f, "factor")
        h.close(d.converted(conversion=lambda x: x + f), v + f, "conversion")
        h.close(d.converted(factor=f, conversion=lambda x: x + f), v * f, "the factor takes precedence")
        h.close(d.converted(f), v * f, "positional factor")
        h.none(d.converted(), "no conversion")
        h.none(h.models.Distance(None).converted(factor=f), "unknown value")
        h.none(h.models.Speed("//").converted(conversion=lambda x: x + f), "unknown value")
    elif k == "conv":
        C = h.utils.Conversions
        t = h.int("t", -9999, 9999)
        x, t = (t / 10, t * Fraction(1, 10)) if c["tenths"] else (t, t)
        K, R = Fraction(27315, 100), Fraction(9, 5)
        for name, want in (("celsius_to_kelvin", t + K), ("kelvin_to_celsius", t - K), ("celsius_to_fahrenheit", t * R + 32),
                           ("fahrenheit_to_celsius", (t - 32) * (1 / R)), ("celsius_to_rankine", (t + K) * R),
                           ("rankine_to_celsius", t * (1 / R) - K)):
            h.close(getattr(C, name)(x), want, name)
        for u in ("kelvin", "fahrenheit", "rankine"):
            to, back = getattr(C, "celsius_to_" + u), getattr(C, u + "_to_celsius")
            h.close(back(to(x)), t, "celsius to %s and back" % u)
            h.close(to(back(x)), t, "%s to celsius and back" % u)
    else:
        C = h.utils.Conversions
        n = h.int("n", 0, 9999)
        rel = {"HPA_TO_INHG": TOL, "INHG_TO_HPA": TOL, "HPA_TO_ATM": TOL}
        for name, f in FACTORS.items():
            h.close(n * getattr(C, name), n * f, name, rel.get(name, Fraction(2, 10 ** 6)))
        for name in FACTORS:
            a, b = name.split("_TO_")
            if "%s_TO_%s" % (b, a) in FACTORS:
                h.close(n * getattr(C, name) * getattr(C, "%s_TO_%s" % (b, a)), n, name + " and back")


FACTORS = {"FT_TO_M": FT, "M_TO_FT": 1 / FT, "SMI_TO_KM": Fraction(1852, 1000), "KM_TO_SMI": Fraction(1000, 1852), "KM_TO_M": 1000,
           "M_TO_KM": Fraction(1, 1000), "M_TO_SMI": Fraction(1, 1852), "M_TO_DM": 10, "M_TO_CM": 100, "M_TO_IN": 1 / (FT / 12),
           "DEGREES_TO_RADIANS": PI / 180, "DEGREES_TO_GRADIANS": Fraction(10, 9), "KNOT_TO_MPS": KT_MPS, "MPS_TO_KNOT": 1 / KT_MPS,
           "KNOT_TO_MIPH": KT_MPH, "KNOT_TO_KPH": KT_KPH, "HPA_TO_INHG": 1 / INHG, "INHG_TO_HPA": INHG,
           "HPA_TO_BAR": Fraction(1, 1000), "BAR_TO_HPA": 1000, "MBAR_TO_HPA": 1, "HPA_TO_MBAR": 1, "HPA_TO_ATM": Fraction(100, 101325)}


def direction(h, d, deg, var):
    check_dir(h, "direction", d.cardinal, d.in_degrees, d.in_radians, d.in_gradians, None if deg is None else fix(int(deg)) if
              isinstance(deg, float) else deg)
    h.eq(d.variable, var, "variable")
    h.eq(d.as_dict(), {"cardinal": d.cardinal, "variable": var, "units": "degrees", "direction": d.in_degrees}, "dictionary")
