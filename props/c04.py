"""C04: temperature and sea groups."""
from props.common import *

BOUNDS = ("one arbitrary token of 1..10 characters over [A-Z0-9/+-] (8+: not starting with R) after the header of a METAR "
          "and after wind, visibility, cloud, temperature and pressure groups")
ASSUMPTIONS = ["units are compared with the physical factors within 2e-6 relative (1e-6 absolute)"]
TEMPS = re.compile(r"([M-])?([0-9]{2}|//|XX|MM)/([M-])?([0-9]{2}|//|XX|MM)")
SEA = re.compile(r"W(M)?([0-9]{2})/(?:S([0-9])|H([0-9]{3}))")
STATES = ["calm (glassy)", "calm (rippled)", "smooth (wavelets)", "slight", "moderate", "rough", "very rough", "high",
          "very high", "phenomenal"]
IN = Fraction(10000, 254)


def cases(tier):
    out = []
    for n in range(1, 11):
        out.append({"name": "header len %d" % n, "pos": "header", "n": n})
        out.append({"name": "after pressure len %d" % n, "pos": "end", "n": n})
    return out


def value(sign, digits):
    if digits in ("//", "XX", "MM"):
        return None
    v = int(digits)
    return v if sign is None else -v


def check_temp(h, x, name, want):
    h.close(getattr(x, name + "_in_celsius"), want, name + " C")
    h.close(getattr(x, name + "_in_kelvin"), None if want is None else want + Fraction(27315, 100), name + " K")
    h.close(getattr(x, name + "_in_fahrenheit"), None if want is None else want * Fraction(9, 5) + 32, name + " F")
    h.close(getattr(x, name + "_in_rankine"), None if want is None else want * Fraction(9, 5) + Fraction(49167, 100),
            name + " R")


def run(h, c):
    tok = token(h, "tok", c["n"])
    if c["pos"] == "header":
        r = h.Metar(MH + tok)
        m = TEMPS.fullmatch(tok)
        code, t, d = (tok, value(m.group(1), m.group(2)), value(m.group(3), m.group(4))) if m else (None, None, None)
    else:
        r = h.Metar(MS + tok)
        code, t, d = "25/20", 25, 20
    h.eq(r.temperatures.code, code, "temperatures code")
    check_temp(h, r.temperatures, "temperature", t)
    check_temp(h, r.temperatures, "dewpoint", d)
    x = r.sea_state
    m = SEA.fullmatch(tok)
    h.eq(x.code, tok if m else None, "sea code")
    check_temp(h, x, "temperature", value(m.group(1), m.group(2)) if m else None)
    s = m.group(3) if m else None
    w = m.group(4) if m else None
    h.eq(x.state, None if s is None else STATES[int(s)], "sea state")
    wave = None if w is None else int(w) * Fraction(1, 10)
    h.close(x.height_in_meters, wave, "wave m")
    h.close(x.height_in_decimeters, times(wave, 10), "wave dm")
    h.close(x.height_in_centimeters, times(wave, 100), "wave cm")
    h.close(x.height_in_feet, times(wave, 1 / FT), "wave ft")
    h.close(x.height_in_inches, times(wave, IN), "wave in")
