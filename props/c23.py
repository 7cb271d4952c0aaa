"""C23: report type, modifier, missing and cancelled."""
from props.common import *

BOUNDS = ("one arbitrary token of 1..6 (thorough 1..7) characters over [A-Z0-9/+-] in the type slot, in the modifier slot, in the slot "
          "after the wind and at the end of a METAR and a TAF, in the NIL slot and in the CNL slot of a TAF; every pair of type and modifier "
          "word together; NIL and CNL without and with a modifier; the tokens "
          "of 4 characters in the type slots and the TAF modifier slot, being station codes, start with a character that starts no station "
          "code, or differ from CORR, AUTO, TEST, FINO or METR in one place")
ASSUMPTIONS = []
TYPES = {"METAR": "Meteorological Aerodrome Report", "SPECI": "Special Aerodrome Report", "TAF": "Terminal Aerodrome Forecast"}
MODS = {"COR": "Correction", "CORR": "Correction", "AMD": "Amendment", "NIL": "Missing report", "AUTO": "Automatic report",
        "TEST": "Testing report", "FINO": "Missing report"}


def cases(tier):
    out = []
    for n in range(1, 7 if tier == "quick" else 8):
        for k in ("metar type", "taf type", "metar modifier", "taf modifier", "missing", "cancelled", "metar after wind",
                  "taf after wind", "metar end", "taf end"):
            if n == 4 and k in ("metar type", "taf type", "taf modifier"):
                # such tokens are station codes: letters that start no station, and near misses of the words
                out.append({"name": "%s len 4" % k, "kind": k, "n": n, "al": ["IJ0123456789/+-", ALNUM, ALNUM, ALNUM]})
                for w in ("CORR", "AUTO", "TEST", "FINO", "METR"):
                    for i in range(4):
                        out.append({"name": "%s %s %d" % (k, w, i), "kind": k, "n": n,
                                    "al": [ALNUM if i == j else w[j] for j in range(4)]})
                continue
            out.append({"name": "%s len %d" % (k, n), "kind": k, "n": n})
    out += [{"name": k, "kind": k, "n": 0} for k in ("metar words", "taf words", "none")]
    return out


def check(h, r, typ, mod, taf, missing=False, cancelled=False):
    h.eq(r.type_.code, typ, "type code")
    h.eq(r.type_.type_, TYPES[typ], "type")
    h.eq(r.modifier.code, mod, "modifier code")
    h.eq(r.modifier.description, None if mod is None else MODS[mod], "modifier description")
    if taf:
        h.eq(r.missing.is_missing, missing, "missing")
        h.eq(r.missing.code, "NIL" if missing else None, "missing code")
        h.eq(r.missing.description, "Missing report" if missing else None, "missing description")
        h.eq(r.cancelled.is_cancelled, cancelled, "cancelled")
        h.eq(r.cancelled.code, "CNL" if cancelled else None, "cancelled code")


def run(h, c):
    k = c["kind"]
    if k == "none":
        check(h, h.Metar("PADK 071400Z 10005KT"), "METAR", None, False)
        check(h, h.Taf("PADK 071130Z 0712/0812 10005KT"), "TAF", None, True)
        check(h, h.Metar("10005KT"), "METAR", None, False)
        check(h, h.Taf("10005KT"), "TAF", None, True)
        return
    if k == "metar words":
        t, m = h.choose("type", tuple(TYPES)), h.choose("modifier", (None,) + tuple(MODS))
        r = h.Metar(" ".join([t, "PADK", "071400Z"] + ([m] if m else []) + ["10005KT"]))
        check(h, r, t, m, False)
        h.eq(r.unparsed_groups, [], "unparsed")
        return
    if k == "taf words":
        t, m = h.choose("type", tuple(TYPES)), h.choose("modifier", (None, "COR", "AMD"))
        nil, cnl = h.bool("nil"), h.bool("cnl")
        r = h.Taf(" ".join([t] + ([m] if m else []) + ["PADK", "071130Z"] + (["NIL"] if nil else []) + ["0712/0812"]
                           + (["CNL"] if cnl else ["10005KT"])))
        check(h, r, t, m, True, nil, cnl)
        h.eq(r.unparsed_groups, [], "unparsed")
        return
    tok = h.str("tok", c["n"], c.get("al", ALNUM))
    if k == "metar type":
        check(h, h.Metar(tok + " PADK 071400Z 10005KT"), tok if tok in TYPES else "METAR",
              tok if c["n"] != 4 and tok in MODS else None, False)  # of 4 letters: a station code
    elif k == "taf type":
        check(h, h.Taf(tok + " PADK 071130Z 0712/0812 10005KT"), tok if tok in TYPES else "TAF",
              tok if tok in ("COR", "AMD") else None, True, missing=tok == "NIL", cancelled=tok == "CNL")
    elif k == "metar modifier":
        check(h, h.Metar("SPECI PADK 071400Z " + tok + " 10005KT"), "SPECI", tok if tok in MODS else None, False)
    elif k == "taf modifier":
        check(h, h.Taf("TAF " + tok + " PADK 071130Z 0712/0812 10005KT"), "TAF", tok if tok in ("COR", "AMD") else None, True,
              missing=tok == "NIL", cancelled=tok == "CNL")
    elif k == "missing":
        check(h, h.Taf("TAF PADK 071130Z " + tok), "TAF", None, True, missing=tok == "NIL", cancelled=tok == "CNL")
    elif k == "cancelled":
        check(h, h.Taf("TAF PADK 071130Z 0712/0812 " + tok), "TAF", None, True, cancelled=tok == "CNL")
    elif k == "metar after wind":
        check(h, h.Metar("METAR PADK 071400Z 10005KT " + tok + " Q1012"), "METAR", None, False)
    elif k == "taf after wind":
        check(h, h.Taf("TAF PADK 071130Z 0712/0812 10005KT " + tok + " FEW020"), "TAF", None, True)
    elif k == "metar end":
        check(h, h.Metar(MS + "W15/S2 " + tok), "METAR", None, False)
    else:
        check(h, h.Taf(TH + "10005KT 9999 FEW020 TX10/0715Z " + tok), "TAF", None, True)
