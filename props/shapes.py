"""Every shape of every group, for the checks that compare two readings of the same decoded report."""
from itertools import product

from props.common import *

ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def join(*parts):
    return ["".join(p) for p in product(*parts)]


WIND = join(("??0", "VRB", "///"), ("??", "???", "//"), ("", "G??", "G???"), ("KT", "MPS")) + ["?0???P??KT", "1?0P??GP??KT"]
POINT = ("", "N", "NE", "E", "SE", "S", "SW", "W", "NW")
VIS = join(("????", "////"), POINT) + ["CAVOK"] + join(("", "M", "P"), ("", "?", "??"), ("", "?/?"), ("SM", "KM", "M", "U")) + \
    join(("", "M", "P"), ("?", "??"), (" ?/?SM",))
RVR = join(("R??",), ("/",), ("", "M", "P"), ("????",), ("", "V????", "VM????", "VP????"), ("", "FT"), ("", "N", "D", "U")) + \
    join(("R??R", "R??L", "R??C", "R88", "R99"), ("/????", "/??V???", "/M???FTU"))
CLOUD = join(("SKC", "CLR", "NSC", "NCD", "FEW", "SCT", "BKN", "OVC", "0VC", "VV", "///"), ("", "???", "///"), ("", "TCU", "CB", "///"))
TEMP = join(("", "M", "-"), ("??", "//", "XX", "MM"), ("/",), ("", "M", "-"), ("??", "//", "XX", "MM"))
PRESSURE = join(("", "A", "Q", "QNH"), ("????", "////"), ("", "INS"))
SEA = join(("W", "WM"), ("??",), ("/S?", "/H???"))
STATE = ["R12/" + a + b + c + d for a, b, c, d in
         [("?", "1", "12", "34"), ("4", "?", "12", "34"), ("4", "5", "??", "34"), ("4", "5", "12", "??"), ("?", "?", "00", "99"), ("?", "/", "//", "9?"),
          ("/", "?", "9?", "//"), ("/", "/", "??", "//"), ("/", "/", "//", "??"), ("?", "/", "//", "//"), ("/", "?", "//", "//"), ("?", "?", "//", "//"),
          ("?", "/", "9?", "0?"), ("/", "5", "99", "?1"), ("6", "/", "0?", "9?"), ("/", "/", "99", "95"), ("/", "/", "//", "//")]] + \
    ["R0?L/?51292", "R??R/4?//??", "R88/4512??", "R99/45??92"] + \
    ["R??/SNOCLO", "R/SNOCLO", "R??R/SNOCLO", "R??/CLRD//", "R??C/CLRD//", "R88/CLRD//", "R99/CLRD//"]
SHEAR = ["WS R??", "WS R??L", "WS R??R", "WS R??C", "WS RWY??", "WS RWY??R", "WS ALL RWY", "WS R?? WS R??", "WS R?? WS ALL RWY", "WS ALL RWY WS R??",
         "WS ALL RWY WS ALL RWY", "WS R??L WS R12 WS RWY??C"]
TREND = ["NOSIG"] + join(("TEMPO", "BECMG"), ("", " FM1???", " TL1???", " AT1???", " FM1??? TL1???", " FM14?? AT15??", " AT15?? FM14??", " TL15?? AT14??",
                                            " AT14?? TL15??", " FM14?? FM15??")) + \
    ["TEMPO FM14?? BECMG AT15??", "TEMPO TEMPO", "BECMG TEMPO TL15?? 2000", "NOSIG TEMPO AT1430"]
MODIFIER = ["COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO"]
CHANGE = ["FM0715??", "FM08????", "TEMPO 071?/071?", "BECMG 07??/080?", "PROB30 071?/080?", "PROB40 07??/0724", "PROB30 TEMPO 071?/071?",
          "PROB40 TEMPO 071?/0724", "TEMPO", "BECMG", "PROB30", "PROB40 TEMPO", "FM0715?? TEMPO 0716/071? FM0718??", "FM0715?? BECMG 071?/0720",
          "PROB30 TEMPO 0713/0715 PROB40 TEMPO 0716/071?", "PROB20 0713/0715", "PROB50 TEMPO 0713/0715", "TEMPO 0714/0716 TEMPO 0714/0716"]
TX = ["T%s%s%s" % (t, m, v) for t in "XN" for m in ("", "M") for v in ("??/0715Z", "05/??12Z", "00/07??Z")] + \
    ["TX?5/0715Z TNM?5/080?Z", "TNM0?/0715Z TN0?/0715Z", "TX?5/0715Z TX?5/0715Z", "TN?0/0715Z TX00/0716Z TN?0/0717Z TX00/0718Z"]
VALID = ["071?/080?", "07??/0724", "08??/0924", "0712/0712"]
LISTS = {"metar": ["BKN0?? BKN0??", "FEW??? FEW??? FEW???", "SCT0?0CB SCT0?0CB BKN0?0 BKN0?0", "-RA -RA", "RA BR RA", "SNRA SNRA SNRA", "R12/0?00 R12/0?00",
                   "R?2/0?00 R?2/0?00 R?2/0?00", "R88/0?00 R99/0?00", "////// ////// //////", "VV??? VV???"],
         "section": ["BKN0?? BKN0??", "FEW??? FEW??? FEW???", "SCT0?0CB SCT0?0CB BKN0?0 BKN0?0", "-RA -RA", "RA BR RA", "////// //////", "VV??? VV???"]}
SHAPES = {("metar", "wind"): WIND, ("metar", "variation"): ["10005KT ??0V??0"], ("metar", "visibility"): VIS,
          ("metar", "minimum visibility"): ["0?00 " + v for v in join(("????", "////"), POINT)], ("metar", "runway range"): RVR,
          ("metar", "cloud"): CLOUD, ("metar", "temperature"): TEMP, ("metar", "pressure"): PRESSURE, ("metar", "two pressures"): ["Q???? A????", "A???? Q????"],
          ("metar", "sea state"): SEA, ("metar", "runway state"): STATE, ("metar", "windshear"): SHEAR, ("metar", "trend"): TREND,
          ("metar", "modifier"): MODIFIER, ("metar", "lists"): LISTS["metar"],
          ("taf", "change"): CHANGE, ("taf", "temperature"): TX, ("taf", "valid"): VALID}
for _ctx in ("taf", "trend", "change"):
    SHAPES[(_ctx, "wind")] = [w for w in WIND if "//" not in w]
    SHAPES[(_ctx, "visibility")] = VIS
    SHAPES[(_ctx, "cloud")] = CLOUD
    SHAPES[(_ctx, "lists")] = LISTS["section"]
BEFORE = {"metar": MH, "taf": TH, "trend": MS + "TEMPO ", "change": TH + "10005KT 9999 FEW020 BECMG 0714/0718 "}


def shape_cases(tier, step=25):
    """step: number of shapes per case."""
    out = []
    for ctx, name in SHAPES:
        n = len(SHAPES[(ctx, name)])
        for k in range(0, n, step):
            out.append({"name": "shapes %s %s %d" % (ctx, name, k), "kind": "shape", "ctx": ctx, "group": name, "from": k, "to": min(n, k + step),
                        "may_be_empty": True})
    for ctx in ("metar", "taf", "trend", "change"):
        for n in range(1, 6 if tier == "quick" else 8):
            out.append({"name": "weather %s len %d" % (ctx, n), "kind": "weather", "ctx": ctx, "n": n})
    for n in range(2, 7 if tier == "quick" else 9):
        out.append({"name": "recent weather len %d" % n, "kind": "recent", "ctx": "metar", "n": n})
    return out


def fill(h, name, form):
    """The form with a digit in place of every question mark."""
    out = ""
    for i in range(len(form)):
        out = out + (h.digits("%s%d" % (name, i), 1) if form[i] == "?" else form[i])
    return out


def shape_report(h, c):
    """The outcome of constructing the report of a shape case."""
    ctx = c["ctx"]
    if c["kind"] == "shape":
        forms = SHAPES[(ctx, c["group"])][c["from"]:c["to"]]
        form = fill(h, "s", h.choose("shape", forms))
    elif c["kind"] == "weather":
        form = h.str("tok", c["n"], ALPHA + "+-/")
    else:
        form = "RE" + h.str("tok", c["n"], ALPHA)
    before = BEFORE[ctx]
    if c.get("group") == "valid":
        before = "TAF PADK 071130Z "
    if c.get("group") == "trend":
        form = form + " 2000"
    return h.attempt(h.Metar if ctx in ("metar", "trend") else h.Taf, before + form, 2022, 10)
