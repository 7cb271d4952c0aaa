"""C01: wind and wind-variation groups."""
import re

from props.common import *

BOUNDS = ("one arbitrary token of 1..15 characters over [A-Z0-9/+-] (from 8 characters on not starting with R, C08 has those) "
          "in the wind position of a METAR body, a TAF body, a METAR trend and a TAF change period; variation: arbitrary "
          "token of 1..9 characters after a wind group. Quick tier: tokens of 12+ characters, and of 9+ in trends and "
          "change periods, start with 3, V or / (thorough: any character)")
ASSUMPTIONS = ["unit conversions are compared with the physical factors within 2e-6 relative (1e-6 absolute)"]
VARIATION = re.compile(r"(0[1-9]0|[12][0-9]0|3[0-6]0)V(0[1-9]0|[12][0-9]0|3[0-6]0)")


def cases(tier):
    out = []
    for ctx in ("metar", "taf", "trend", "change"):
        for n in range(1, 16):
            out.append({"name": "wind %s len %d" % (ctx, n), "kind": "wind", "ctx": ctx, "n": n,
                        "few": tier == "quick" and n >= (12 if ctx in ("metar", "taf") else 9)})
    for n in range(1, 10):
        out.append({"name": "variation len %d" % n, "kind": "var", "n": n})
    return out


def run(h, c):
    if c.get("few"):
        tok = h.str("tok", c["n"], ["3V/"] + [ALNUM] * (c["n"] - 1))
    else:
        tok = token(h, "tok", c["n"])
    if c["kind"] == "wind":
        r, s = section(h, c["ctx"], tok)
        if s is None:
            h.check(False, "section present")
            return
        check_wind_token(h, s.wind, tok, c["ctx"] in ("taf", "change"))
        return
    r = h.Metar(MH + "10005KT " + tok)
    v = r.wind_variation
    m = VARIATION.fullmatch(tok)
    h.eq(v.code, tok if m else None, "variation code")
    check_dir(h, "variation from", v.from_cardinal_direction, v.from_in_degrees, v.from_in_radians,
              v.from_in_gradians, int(m.group(1)) if m else None)
    check_dir(h, "variation to", v.to_cardinal_direction, v.to_in_degrees, v.to_in_radians,
              v.to_in_gradians, int(m.group(2)) if m else None)
    check_wind_token(h, r.wind, "10005KT", False, "earlier wind")
