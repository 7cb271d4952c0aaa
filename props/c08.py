"""C08: runway state and windshear groups."""
from props.common import *

BOUNDS = ("runway state, at the end of a METAR body: one arbitrary token of 1..7 characters over [A-Z0-9/+-]; R + arbitrary name "
          "of 0..4 characters + one of five tails; R12/ + 6 and R12L/ + 6 arbitrary characters of which four (quick) or all six "
          "(thorough) vary at a time; windshear: 'WS ' + arbitrary token of 1..6 characters, 'WS ALL ' + arbitrary token of 3 "
          "or 4 characters, an arbitrary token of 1..4 characters + ' R12', and three windshear groups with arbitrary numbers "
          "followed by a fourth one, WS ALL RWY among one or two others")
STATE = re.compile(r"R(?:([0-9]{2})([RLC])?)?/(?:([0-9/])([0-9/])([0-9]{2}|//)([0-9]{2}|//)|(SNOCLO)|(CLRD//))")
DEPOSIT = {"0": "clear and dry", "1": "damp", "2": "wet and water patches",
           "3": "rime and frost covered (depth normally less than 1 mm)", "4": "dry snow", "5": "wet snow", "6": "slush",
           "7": "ice", "8": "compacted or rolled snow", "9": "frozen ruts or ridges",
           "/": "type of deposit not reported (e.g. due to runway clearance in progress)"}
CONTAMINATION = {"0": None, "1": "less than 10% of runway", "2": "11%-25% of runway", "3": "reserved", "4": "reserved",
                 "5": "26%-50% of runway", "6": "reserved", "7": "reserved", "8": "reserved", "9": "51%-100% of runway",
                 "/": "not reported"}
DEPTH = {"00": "less than 1 mm", "91": "reserved", "92": "10 cm", "93": "15 cm", "94": "20 cm", "95": "25 cm", "96": "30 cm",
         "97": "35 cm", "98": "40 cm or more",
         "99": "runway(s) non-operational due to snow, slush, ice, large drifts or runway clearance, but depth not reported",
         "//": "depth of deposit operationally not significant or not measurable"}
FRICTION = {"91": "breaking action poor", "92": "breaking action medium/poor", "93": "breaking action medium",
            "94": "breaking action medium/good", "95": "breaking action good", "96": "reserved", "97": "reserved",
            "98": "reserved", "99": "breaking action unreliable",
            "//": "breaking conditions not reported and/or runway not operational"}
SIDE = {"R": "right", "L": "left", "C": "center"}
WS = re.compile(r"R(?:WY)?([0-9]{2})([RLC])?")
BASE = "451092"


def cases(tier):
    out = []
    for n in range(1, 8):
        out.append({"name": "any len %d" % n, "kind": "any", "n": n})
    for n in range(0, 5):
        for t in ("/451092", "/SNOCLO", "/CLRD//", "//99//", "/CLRD/"):
            out.append({"name": "name len %d %s" % (n, t), "kind": "name", "n": n, "tail": t})
    for name in ("R12/", "R12L/"):
        if tier == "quick":
            for v in ([0, 1, 2, 3], [0, 1, 4, 5], [2, 3, 4, 5], [1, 2, 3, 4]):
                out.append({"name": "state %s %s" % (name, v), "kind": "state", "head": name, "vary": v})
        else:
            for v in ([0, 1, 2, 3, 4, 5],):
                out.append({"name": "state %s %s" % (name, v), "kind": "state", "head": name, "vary": v})
    for n in range(1, 7):
        out.append({"name": "windshear len %d" % n, "kind": "ws", "n": n})
    for n in (3, 4):
        out.append({"name": "windshear all len %d" % n, "kind": "wsall", "n": n})
    for n in (1, 2, 3, 4):
        out.append({"name": "windshear word len %d" % n, "kind": "wsword", "n": n})
    out.append({"name": "windshear order", "kind": "order"})
    for n in (2, 3):
        for at in range(n):
            out.append({"name": "windshear order %d all at %d" % (n, at), "kind": "orderall", "n": n, "at": at})
    return out


def name_of(digits, side):
    if digits is None:
        return None
    if side is not None:
        return digits + " " + SIDE[side]
    return "all runways" if digits == "88" else "repeated" if digits == "99" else digits


def depth_of(s):
    if s is None:
        return None
    if s != "//":
        v = int(s)
        if 1 <= v and v <= 90:
            return "%d mm" % v
    return DEPTH[s]


def friction_of(s):
    if s is None:
        return None
    if s != "//" and int(s) <= 90:
        return "0." + s
    return FRICTION[s]


def check_state(h, r, tok):
    x = r.runway_state
    m = STATE.fullmatch(tok)
    g = m.groups() if m else (None,) * 8
    h.eq(x.code, tok if m else None, "state code")
    h.eq(x.name, name_of(g[0], g[1]), "state name")
    h.eq(x.deposits, None if g[2] is None else DEPOSIT[g[2]], "deposits")
    h.eq(x.contamination, None if g[3] is None else CONTAMINATION[g[3]], "contamination")
    h.eq(x.deposits_depth, depth_of(g[4]), "deposits depth")
    h.eq(x.surface_friction, friction_of(g[5]), "surface friction")
    h.eq(x.snoclo, g[6] is not None, "snoclo")
    if g[7] is None:
        h.eq(x.clrd, None, "clrd")
    elif g[0] is not None:
        where = {"88": "all runways", "99": "previous runway"}
        k = g[0] if g[1] is None else ""
        h.eq(x.clrd, "contaminations have ceased to exists on " +
             (where[k] if k in where else "runway " + name_of(g[0], g[1])), "clrd")
    else:
        h.eq(x.clrd is None, False, "clrd")


def check_ws(h, r, want, unparsed):
    """want: list of (code, name, all)."""
    w = r.windshears
    h.eq(w.codes, [x[0] for x in want], "windshear codes")
    for i in range(len(want)):
        h.eq(w[i].name, want[i][1], "windshear name")
        h.eq(w[i].all_, want[i][2], "windshear all")
    if len(want) == 1 and want[0][2]:
        h.eq(w.all_runways, True, "all runways")
    elif len([x for x in want if x[2]]) == 0:
        h.eq(w.all_runways, False, "all runways")
        h.eq(w.names, [x[1] for x in want], "names in order")
    if unparsed is not None:
        h.eq(r.unparsed_groups, unparsed, "unparsed")


def ws_name(d, side):
    return d if side is None else d + " " + SIDE[side]


def run(h, c):
    k = c["kind"]
    if k == "any":
        tok = h.str("tok", c["n"], ALNUM)
        r = h.Metar(MS + tok)
        check_state(h, r, tok)
        check_ws(h, r, [], None)
    elif k == "name":
        tok = "R" + (h.str("name", c["n"], ALNUM) if c["n"] else "") + c["tail"]
        r = h.Metar(MS + tok)
        check_state(h, r, tok)
    elif k == "state":
        al = list(BASE)
        for i in c["vary"]:
            al[i] = ALNUM
        tok = c["head"] + h.str("tail", 6, al)
        r = h.Metar(MS + tok)
        check_state(h, r, tok)
    elif k == "ws":
        tok = h.str("tok", c["n"], ALNUM)
        r = h.Metar(MS + "WS " + tok)
        m = WS.fullmatch(tok)
        if m:
            check_ws(h, r, [("WS " + tok, ws_name(m.group(1), m.group(2)), False)], [])
        else:
            check_ws(h, r, [], None)
    elif k == "wsall":
        tok = h.str("tok", c["n"], ALNUM)
        r = h.Metar(MS + "WS ALL " + tok)
        if tok == "RWY":
            check_ws(h, r, [("WS ALL RWY", None, True)], [])
        else:
            check_ws(h, r, [], None)
    elif k == "wsword":
        tok = h.str("tok", c["n"], ALNUM)
        r = h.Metar(MS + tok + " R12")
        if tok == "WS":
            check_ws(h, r, [("WS R12", "12", False)], [])
        else:
            check_ws(h, r, [], None)
    elif k == "orderall":
        want = []
        for i in range(c["n"]):
            d = h.digits("d%d" % i, 2)
            want.append(("WS ALL RWY", None, True) if i == c["at"] else ("WS R" + d, d, False))
        check_ws(h, h.Metar(MS + " ".join([w[0] for w in want])), want, [])
    else:
        a, b, d = h.digits("a", 2), h.digits("b", 2), h.digits("d", 2)
        side = h.choose("side", ("", "L", "C", "R"))
        r = h.Metar(MS + "WS R" + a + " WS RWY" + b + side + " WS R" + d + "C WS R01")
        check_ws(h, r, [("WS R" + a, a, False), ("WS RWY" + b + side, ws_name(b, side or None), False),
                        ("WS R" + d + "C", d + " center", False)], ["WS", "R01"])
