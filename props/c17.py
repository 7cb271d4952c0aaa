"""C17: the sections partition the report."""
from props.common import *

BOUNDS = ("METAR: every sequence of up to 3 (thorough 4) section words out of NOSIG, TEMPO, BECMG, RMK, each followed by no or one arbitrary "
          "token of 1..3 (thorough 1..5) characters, with every type word or none, with or without station and body; TAF: every sequence of up to 3 (thorough 4) "
          "change words out of FMddhhmm (digits arbitrary), TEMPO, BECMG, PROBn0, PROBn0 TEMPO (n arbitrary digit), each followed by no or one arbitrary token, "
          "with header TAF, TAF AMD, TAF COR, AMD or none; one arbitrary token of 1..7 characters over [A-Z0-9/+-] at each place of a METAR "
          "with trend and remark and of a TAF with four changes; every station code RMK?, FM??, TEMP, BECM, NOSI, PROB under every header")
ASSUMPTIONS = ["a word that begins with a section word is that section word (TEMPO, FM071500, PROB30); tokens that begin with one without being one "
               "(TEMPOX) are left out", "after a remark a trend word starts a trend section again (Australian trends follow the remark)",
               "a TAF has its station before the first change group"]
MK = ("NOSIG", "TEMPO", "BECMG", "RMK")
TK = ("FM", "TEMPO", "BECMG", "PROB", "PROB TEMPO")
TPRE = ("FM", "TEMPO", "BECMG", "PROB")
MB = ["PADK", "071400Z", "10005KT", "9999", "RA", "FEW020", "25/20", "Q1012"]
TB = ["PADK", "071130Z", "0712/0812", "10005KT", "1", "1/2SM", "RA", "FEW020", "TX25/0715Z"]
MW = ("METAR", "PADK", "071400Z", "10005KT", "9999", "Q1012", "NOSIG", "TEMPO", "FM1430", "2000", "BECMG", "OVC010", "RMK", "AO2", "SLP1")
TW = ("TAF", "AMD", "PADK", "071130Z", "0712/0812", "10005KT", "FEW020", "FM071500", "20010KT", "PROB30", "TEMPO", "0716/0718", "RA",
      "BECMG", "0718/0720", "OVC010", "PROB40", "0720/0722", "BR")


def cases(tier):
    q = tier == "quick"
    out = []
    top = 3 if q else 4
    for ctx, ks in (("metar", MK), ("taf", TK)):
        for n in range(top + 1):
            for first in (ks if n else ("",)):
                for second in (ks if n > 2 else ("",)):
                    out.append({"name": "%s %d words %s %s" % (ctx, n, first, second), "ctx": ctx, "kind": "words", "n": n, "len": 3 if q else 5,
                                "first": first, "second": second})
    for ctx, ws in (("metar", MW), ("taf", TW)):
        for at in range(len(ws) + 1):
            for n in range(1, 8):
                if (at + n) % (3 if q else 1) or q and n == 6 or at == 0 and ctx == "taf":
                    continue
                out.append({"name": "%s token len %d at %d" % (ctx, n, at), "ctx": ctx, "kind": "token", "n": n, "at": at})
        for s in ("RMK?", "FM??", "TEMP", "BECM", "NOSI", "PROB"):
            out.append({"name": "%s station %s" % (ctx, s), "ctx": ctx, "kind": "station", "s": s})
    return out


def metar_ref(words, head):
    """Body, trend and remark of a METAR; the first `head` words are never section words."""
    part, now = {"b": [], "t": [], "r": []}, "b"
    for i in range(len(words)):
        w = words[i]
        if i >= head and w in MK:
            now = "r" if w == "RMK" else "t"
        part[now].append(w)
    return [" ".join(part[k]) for k in "btr"]


def taf_ref(words, marks):
    """Body and change groups; marks[i]: word i is a change word."""
    out = [[]]
    for i in range(len(words)):
        if marks[i] and not (words[i] == "TEMPO" and i > 0 and words[i - 1] in ("PROB30", "PROB40") and len(out[-1]) == 1):
            out.append([])
        out[-1].append(words[i])
    return [" ".join(x) for x in out]


def check_metar(h, words, head):
    o = h.attempt(h.Metar, " ".join(words), 2022, 10)
    if not o.ok and len([w for w in words if w in MK[:3]]) > 2:
        h.eq(o.kind, "RangeError", "too many trends (see C22)")
        return
    h.eq(o.kind, None, "construction")
    if not o.ok:
        return
    r = o.value
    want = metar_ref(words, head)
    h.eq(r.sections, want, "sections")
    h.eq([r.body, r.trend, r.remark], want, "body, trend, remark")
    h.eq(r.raw_code, " ".join(words), "raw code")
    h.eq(" ".join(x for x in [r.body] + [wt.code for wt in r.weather_trends] if x != ""), " ".join(x for x in want[:2] if x != ""),
         "body and trend periods")
    return r


def check_taf(h, words, marks):
    r = h.Taf(" ".join(words), 2022, 10)
    want = taf_ref(words, marks)
    h.eq(r.sections, [want[0], " ".join(want[1:])], "sections")
    h.eq([r.body, r.weather_changes], [want[0], " ".join(want[1:])], "body, changes")
    h.eq([x.code for x in r.changes_forecasted], want[1:], "change groups")
    h.eq(r.raw_code, " ".join(words), "raw code")
    return r


def plain(h, name, n, pre):
    """An arbitrary token that does not begin with a section word."""
    t = h.str(name, n, ALNUM)
    for w in pre:
        if len(w) <= n:
            h.assume(t[:len(w)] != w)
    return t


def run(h, c):
    ctx, kind = c["ctx"], c["kind"]
    h.set_now(2022, 10, 9, 12, 0)
    if kind == "words":
        ks = MK if ctx == "metar" else TK
        seq = []
        for i in range(c["n"]):
            k = c["first"] if i == 0 else c["second"] if i == 1 and c["second"] != "" else h.choose("k%d" % i, ks)
            words = [k]
            if k == "FM":
                words = ["FM07" + h.str("fm%d" % i, 1, "1") + h.digits("fh%d" % i, 1) + "00"]
            elif k[:4] == "PROB":
                words = ["PROB" + h.choose("p%d" % i, ("4", "5") if k == "PROB" else ("3",) if i else ("3", "4")) + "0"] + (["TEMPO"] if k != "PROB" else [])
            # tokens that match no group keep the number of paths small; see "token" for the others
            m = h.choose("m%d" % i, (0, c["len"] - 1))
            seq.append((words, [h.str("t%d" % i, 1, "XYZ") + h.str("u%d" % i, m, ALNUM)] if m else []))
        if ctx == "metar":
            head = h.choose("head", (["METAR"], ["SPECI"], [], ["METAR"] + MB, MB))
            words = list(head)
            for w, t in seq:
                words = words + w + t
            if len(words) == 0:
                return
            check_metar(h, words, 0)
            return
        words = list(h.choose("head", (["TAF"], ["TAF", "AMD"], ["TAF", "COR"], ["AMD"], []))) + (TB if h.bool("body") else TB[:2])
        marks = [False] * len(words)
        for w, t in seq:
            words = words + w + t
            marks = marks + [True] * len(w) + [False] * len(t)
        check_taf(h, words, marks)
    elif kind == "token":
        ws = list(MW if ctx == "metar" else TW)
        n, at = c["n"], c["at"]
        al = [ALNUM] * n
        if n == 4 and "PADK" in ws[at:]:
            al[0] = "IJ0123456789/+-"
        t = h.str("tok", n, al)
        for w in MK if ctx == "metar" else TPRE:
            if len(w) <= n:
                h.assume(t[:len(w)] != w)
        if ctx == "metar":
            words = ws[:at] + [t] + ws[at:]
            check_metar(h, words, 0)
        else:
            marks = [w[:2] == "FM" or w[:5] in ("TEMPO", "BECMG") or w[:4] == "PROB" for w in ws]
            check_taf(h, ws[:at] + [t] + ws[at:], marks[:at] + [False] + marks[at:])
    else:
        s = c["s"]
        code = h.str("station", 4, [("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" if x == "?" and i < 4 else x) for i, x in enumerate(s)])
        if ctx == "metar":
            head = list(h.choose("head", (["METAR"], ["SPECI"], ["TAF"], [])))
            r = check_metar(h, head + [code] + MB[1:] + ["TEMPO", "2000", "RMK", "AO2"], len(head) + 1)
        else:
            head = list(h.choose("head", (["TAF"], ["TAF", "AMD"], ["TAF", "COR"], ["AMD"], ["COR"], [])))
            words = head + [code] + TB[1:] + ["PROB30", "TEMPO", "0714/0716", "2000"]
            r = check_taf(h, words, [False] * (len(words) - 4) + [True, True, False, False])
        if r is not None:
            h.eq(r.station.code, code, "station")
