"""C05: pressure groups."""
from props.common import *

BOUNDS = ("one arbitrary token of 1..11 characters over [A-Z0-9/+-] (8+: not starting with R) after the header of a METAR; "
          "and after a Q group with four arbitrary digits")
ASSUMPTIONS = ["units are compared with the physical factors within 1e-5 relative"]
PRESS = re.compile(r"(A|Q|QNH)?([0-9]{4}|////)(INS)?")
INHG = Fraction(33863886667, 10 ** 9)


def cases(tier):
    out = []
    for n in range(1, 12):
        out.append({"name": "header len %d" % n, "pos": "header", "n": n})
        if n <= (9 if tier == "quick" else 11):
            out.append({"name": "second len %d" % n, "pos": "second", "n": n})
    return out


def press_ref(tok):
    """(hPa,) of a pressure token, or None."""
    m = PRESS.fullmatch(tok)
    if not m:
        return None
    if m.group(2) == "////":
        return (None,)
    v = int(m.group(2))
    if m.group(1) == "A" or m.group(3) is not None:
        return (v * INHG / 100,)
    if m.group(1) is not None:
        return (v,)
    if v > 2500:
        return (v * INHG / 100,)
    return (v,)


def run(h, c):
    tok = token(h, "tok", c["n"])
    if c["pos"] == "header":
        r = h.Metar(MH + tok)
        code, want = None, None
        if not METRES.fullmatch(tok):  # 4-digit groups at this position are visibilities
            ref = press_ref(tok)
            code, want = (None, None) if ref is None else (tok, ref[0])
    else:
        first = h.digits("first", 4)
        r = h.Metar(MH + "9999 8000 Q" + first + " " + tok)
        ref = press_ref(tok)
        code, want = ("Q" + first, int(first)) if ref is None else (tok, ref[0])
    p = r.pressure
    h.eq(p.code, code, "pressure code")
    tol = Fraction(1, 10 ** 5)
    h.close(p.in_hPa, want, "hPa", tol)
    h.close(p.in_mbar, want, "mbar", tol)
    h.close(p.in_bar, times(want, Fraction(1, 1000)), "bar", tol)
    h.close(p.in_atm, times(want, Fraction(100, 101325)), "atm", tol)
    h.close(p.in_inHg, times(want, 1 / INHG), "inHg", tol)
