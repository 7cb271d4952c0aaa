"""C16: parsing never fails by default, strict mode fails exactly on leftovers."""
from props.common import *

BOUNDS = ("one arbitrary token of 1..9 (quick 1..6) characters over [A-Z0-9/+-], each place with some of the lengths by turns (not R first "
          "from 8 characters on), put before every group or in place of it of METAR, TAF, trend and change period, and every length alone after the header of each; as the rest of a group that begins with FM, TL, AT, PROB, TX, "
          "R12/, WS, RE, TEMPO, BECMG, NOSIG, RMK, M, VV, W, A, Q, VRB (thorough up to 6 characters, quick 0, 2, 4); two arbitrary tokens of up to 2 (thorough 4, together 7) characters after the header of each section; free "
          "text over letters, digits, signs, blanks, tab, underscore and the end mark: 1..3 (thorough 1..6) characters after the header of each section, 1..5 "
          "(thorough 1..8) as the whole report; numbers of groups beyond the capacities of C22; every property, every group, text forms, dictionaries and JSON read; "
          "normal and strict mode, with and without given year and month")
ASSUMPTIONS = ["a token in front of the station, being itself a station code when it has four characters, starts with a character that "
               "starts no station code; the station data are C21's",
               "the month of the report has 31 days (C09 and C10 treat the others)"]
BODY = {
    "metar": ("METAR", "PADK", "071400Z", "10005KT", "9999", "R12/0800", "RA", "FEW020", "25/20", "Q1012", "RETS", "W15/S2"),
    "taf": ("TAF", "PADK", "071130Z", "0712/0812", "10005KT", "9999", "RA", "FEW020", "TX25/0715Z"),
    "trend": ("TEMPO", "FM1430", "20010KT", "2000", "RA", "OVC030"),
    "change": ("TEMPO", "0714/0716", "20010KT", "2000", "RA", "OVC030"),
}
PRE = {"metar": "", "taf": "", "trend": "METAR PADK 071400Z 10005KT 9999 FEW020 25/20 Q1012 ",
       "change": "TAF PADK 071130Z 0712/0812 10005KT 9999 FEW020 "}
HEAD = {"metar": "METAR PADK 071400Z ", "taf": "TAF PADK 071130Z ", "trend": PRE["trend"] + "BECMG ",
        "change": PRE["change"] + "BECMG "}
STARTS = ("FM", "TL", "AT", "PROB", "PROB30 ", "TX", "R12/", "R88/", "WS ", "WS R", "RE", "TEMPO", "BECMG", "NOSIG", "RMK", "1 1/", "M", "VV", "W", "A", "Q",
          "VRB")
FREE = ALNUM + " \t_=."


def cases(tier):
    q = tier == "quick"
    out = []
    for ctx in BODY:
        for i in range(len(BODY[ctx]) + 1):
            for n in range(1, 10):
                if (i + n) % (8 if q else 3) if n < 7 else q or (i + n) % 3:
                    continue
                out.append({"name": "%s token len %d before %d" % (ctx, n, i), "ctx": ctx, "kind": "insert", "n": n, "at": i})
        for i in range(len(BODY[ctx])):
            for n in range(1, 10):
                if (i + n + 2) % (8 if q else 3) if n < 7 else q or (i + n + 1) % 3:
                    continue
                out.append({"name": "%s token len %d for %s" % (ctx, n, BODY[ctx][i]), "ctx": ctx, "kind": "replace", "n": n, "at": i})
        for n in range(1, 7 if q else 10):
            out.append({"name": "%s only token len %d" % (ctx, n), "ctx": ctx, "kind": "only", "n": n})
        for s in STARTS:
            for n in range(0, 7) if not q else (0, 2, 4):
                out.append({"name": "%s %s.. len %d" % (ctx, s, n), "ctx": ctx, "kind": "start", "start": s, "n": n})
        for n in range(1, 5):
            for k in range(1, 5):
                if q and (n, k) not in ((1, 2), (2, 2), (3, 1)) or n + k > 7:
                    continue
                out.append({"name": "%s two tokens len %d %d" % (ctx, n, k), "ctx": ctx, "kind": "two", "n": n, "k": k})
        for n in range(1, 4 if q else 7):
            out.append({"name": "%s free text %d" % (ctx, n), "ctx": ctx, "kind": "free", "n": n})
    for n in range(1, 6 if q else 9):
        for ctx in ("metar", "taf"):
            out.append({"name": "%s whole text %d" % (ctx, n), "ctx": ctx, "kind": "whole", "n": n})
    for ctx in BODY:
        for k, g in enumerate(("R12/0800", "WS R12", "RA", "FEW020", "TX25/0715Z", "TN25/0715Z", "TEMPO 20010KT", "FM071500 20010KT", "BECMG", "PROB30 TEMPO", "XXX2X")):
            out.append({"name": "%s many %s" % (ctx, g), "ctx": ctx, "kind": "many", "g": g})
    return out


def read(h, o, depth=0):
    """Read everything o offers."""
    if o is None or isinstance(o, (str, int, float, list, tuple, dict)):
        return
    if not type(o).__module__.startswith("aeromet_py"):
        return
    names = [n for n in dir(type(o)) if not n.startswith("_")]
    for n in names:
        a = getattr(type(o), n)
        if isinstance(a, property):
            v = getattr(o, n)
            if depth < 4:
                read(h, v, depth + 1)
                if isinstance(v, list):
                    for x in v:
                        read(h, x, depth + 1)
        elif n in ("as_dict", "to_json", "should_be_cavok"):
            getattr(o, n)()
    str(o)
    if hasattr(type(o), "__len__"):
        len(o)
    if hasattr(type(o), "__getitem__"):
        for i in range(len(o)):
            read(h, o[i], depth + 1)
        for x in o:
            str(x)


def judge(h, ctx, text, dated=True, many=False):
    cls = h.Metar if ctx in ("metar", "trend") else h.Taf
    args = (2022, 10) if dated else ()
    o = h.attempt(cls, text, *args)
    s = h.attempt(cls, text, *args, truncate=True)
    if many and o.kind == "RangeError":
        h.eq(s.kind, "RangeError", "strict construction, too many groups")
        return
    h.eq(o.kind, None, "construction")
    if not o.ok:
        return
    un = o.value.unparsed_groups
    h.eq(s.kind, "ParserError" if len(un) else None, "strict construction")
    if len(un) and not s.ok:
        msg = str(s.exc)
        raw = o.value.raw_code
        if msg.endswith(raw):  # the report itself, quoted after the groups, names nothing
            msg = msg[:len(msg) - len(raw)]
        for g in un:
            h.check(g in msg, "the message names the group", g, msg)
    r = h.attempt(read, h, o.value)
    h.eq(r.kind, None, "reading")


def run(h, c):
    ctx, kind = c["ctx"], c["kind"]
    h.set_now(2022, 10, 9, 12, 0)
    g = list(BODY[ctx])
    if kind in ("insert", "replace"):
        n, at = c["n"], c["at"]
        al = [ALNUM] * n
        if n > 7:
            al[0] = ALNUM.replace("R", "")
        if n == 4 and ctx in ("metar", "taf") and at < 2:
            al[0] = "IJ0123456789/+-"
        t = h.str("tok", n, al)
        g[at:at + (kind == "replace")] = [t]
        judge(h, ctx, PRE[ctx] + " ".join(g))
    elif kind == "only":
        judge(h, ctx, HEAD[ctx] + token(h, "tok", c["n"]), dated=bool(c["n"] % 2))
    elif kind == "start":
        judge(h, ctx, HEAD[ctx] + c["start"] + token(h, "tok", c["n"]))
    elif kind == "two":
        judge(h, ctx, HEAD[ctx] + token(h, "tok", c["n"]) + " " + token(h, "tok2", c["k"]))
    elif kind == "free":
        judge(h, ctx, HEAD[ctx] + h.str("text", c["n"], FREE))
    elif kind == "whole":
        judge(h, ctx, h.str("text", c["n"], "IJ0123456789/+- \t_=."))
    else:
        d = h.str("digit", 1, "12")
        x = c["g"].replace("2", d)
        n = h.choose("n", tuple(range(12)))
        words = [x] * n
        if c["g"] == "XXX2X":  # different unknown groups
            words = ["XX" + "ABCDEFGHIJKL"[i] + d + "X" for i in range(n)]
        judge(h, ctx, HEAD[ctx] + " ".join(words), many=n > 2)
