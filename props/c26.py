"""C26: preparing and splitting the text loses nothing."""
from props.common import *

BOUNDS = ("split_sentence: every text of 0..8 (thorough 0..11) characters over [F M T blank] with the keywords FM, then FM and T, for "
          "every mode of blanks, unlimited and with count 1 and 2; preparation of visibilities: every text of 1..11 (thorough 15) characters over "
          "[1 2 / S M blank] after a word and every combination of up to three whole mixed numbers with arbitrary digits and other words; of windshears: "
          "WS, ALL, RWY and runways with arbitrary digits and side, up to three, with and without other words, characters glued to either end, "
          "and every text of 1..9 (thorough 12) characters over [W S R 1 L blank]; of change indicators: up to four PROB?0 TEMPO with arbitrary digit")
ASSUMPTIONS = ["texts without '_' (and of white space only blanks)",
               "keywords without characters special to regular expressions"]
MODES = ("", "left", "right", "both")
FRACT = re.compile(r"[0-9]/[1-9]SM")
NUM = re.compile(r"[0-9]{1,2}")
RW = re.compile(r"R(WY)?[0-9]{2}[LRC]?")
PROB = re.compile(r"PROB[34]0")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(0, 9 if q else 12):
        for sp in MODES:
            for kws in (["FM"], ["FM", "T"]):
                for count in (0, 1, 2):
                    out.append({"name": "split %d %s %s %d" % (n, "+".join(kws), sp or "none", count), "kind": "split", "n": n, "space": sp,
                                "kws": kws, "count": count})
    for n in range(1, 12 if q else 16):
        out.append({"name": "visibility text %d" % n, "kind": "free", "f": "vis", "n": n, "alphabet": "12/SM "})
    for n in range(1, 10 if q else 13):
        out.append({"name": "windshear text %d" % n, "kind": "free", "f": "ws", "n": n, "alphabet": "WSR1L "})
    for i, t in enumerate(VIS):
        out.append({"name": "visibility %s" % t, "kind": "form", "f": "vis", "t": t})
    for i, t in enumerate(WS):
        out.append({"name": "windshear %s" % t, "kind": "form", "f": "ws", "t": t})
    for i, t in enumerate(CH):
        out.append({"name": "change %s" % t, "kind": "form", "f": "ch", "t": t})
    return out


VIS = ("X ? ?/?SM", "X ?? ?/?SM Y", "X ? ?/?SM ?? ?/?SM", "X ? ?/?SM Y ? ?/?SM Z ?? ?/?SM", "X ? ?/?KM", "X ? ?/?SMX", "X ??? ?/?SM", "? ?/?SM",
       "X ?A ?/?SM", "X ? ? ?/?SM", "X ?/?SM ?/?SM", "X ?  ?/?SM", "X  ? ?/?SM  ?? ?/?SM  Y", "X 1 ?/?SM 2 ?/?SM 3 ?/?SM 4 ?/?SM", "X ? ?/?SM", "X ??")
WS = ("X WS ALL RWY Y", "WS ALL RWY", "X WS RWY?? Y", "X WS R??", "X WS R??L", "X WS RWY??C WS R??R WS RWY??", "X WS R?? WS R?? WS R?? Y", "WS ALL RWY WS R??",
      "X WSX R??", "XWS R??", "WS R??X", "WS R???", "WS RWY", "WS ALL RWY??", "WS ALL RWYX", "XWS ALL RWY", "WS WS R??", "WS X R??", "X WS R??S", "WS R?", "X WS  R??", "X WS ALL  RWY", "WS  ALL RWY", "  WS R??L  WS ALL RWY  ", "X WS R??  WS R??")
CH = ("X PROB?0 TEMPO Y", "PROB?0 TEMPO", "X PROB30 TEMPO Y PROB40 TEMPO Z PROB?0 TEMPO W PROB?0 TEMPO", "X PROB?0 Y TEMPO Z", "X TEMPO Y PROB?0 Z",
      "PROB?0 PROB?0 TEMPO", "PROB?0  TEMPO", "X  PROB?0 TEMPO  Y PROB?0   TEMPO", "X PROB?? TEMPO Y", "X PROB?0 TEMPO TEMPO")


def fill(h, t):
    out, k = "", 0
    while "?" in t:
        i = t.index("?")
        out = out + t[:i] + h.digits("d%d" % k, 1)
        t, k = t[i + 1:], k + 1
    return out + t


def join_pairs(words, first, second, top, start):
    """words with up to top pairs (first, second) joined by '_'; nothing before index start is the first of a pair."""
    out, i, n = [], 0, 0
    while i < len(words):
        if n < top and i >= start and i + 1 < len(words) and first(words[i]) and second(words[i + 1]):
            out.append(words[i] + "_" + words[i + 1])
            i, n = i + 2, n + 1
        else:
            out.append(words[i])
            i += 1
    return out


def reference(f, text):
    w = text.split(" ")
    if f == "vis":  # the first word of a section is never a visibility
        return " ".join(join_pairs(w, lambda x: NUM.fullmatch(x) is not None, lambda x: FRACT.fullmatch(x) is not None, 3, 1))
    if f == "ch":
        return " ".join(join_pairs(w, lambda x: PROB.fullmatch(x) is not None, lambda x: x == "TEMPO", 99, 0))
    out, i = [], 0
    while i < len(w):
        if w[i] == "WS" and i + 2 < len(w) and w[i + 1] == "ALL" and w[i + 2] == "RWY":
            out.append("WS_ALL_RWY")
            i += 3
        else:
            out.append(w[i])
            i += 1
    return " ".join(join_pairs(out, lambda x: x == "WS", lambda x: RW.fullmatch(x) is not None, 3, 0))


def find_all(text, kw, limit):
    """Positions of the first `limit` occurrences of kw, from the left, that do not overlap."""
    out, i = [], 0
    while i + len(kw) <= len(text) and (limit == 0 or len(out) < limit):
        if text[i:i + len(kw)] == kw:
            out.append(i)
            i += len(kw)
        else:
            i += 1
    return out


def split_ref(pieces, kw, space, count):
    """Splitting the pieces at kw: a keyword starts a piece, the blank before it goes, the one after it stays only without a left one."""
    text = "\n".join(pieces)
    key = (" " if space in ("left", "both") else "") + kw + (" " if space in ("right", "both") else "")
    out, at = "", 0
    for p in find_all(text, key, count):
        out = out + text[at:p] + "\n" + key.lstrip()
        at = p + len(key)
    return (out + text[at:]).split("\n")


def run(h, c):
    U = h.utils
    if c["kind"] == "split":
        text = h.str("text", c["n"], "FMT ")
        got = U.split_sentence(text, list(c["kws"]), count=c["count"], space=c["space"])
        want = [text]
        for kw in c["kws"]:
            want = split_ref(want, kw, c["space"], c["count"])
        h.eq(got, want, "pieces")
        glue = " " if c["space"] in ("left", "both") else ""
        h.eq(glue.join(got), text, "nothing is lost")
        return
    f = {"vis": U.sanitize_visibility, "ws": U.sanitize_windshear, "ch": U.sanitize_change_indicator}[c["f"]]
    if c["kind"] == "free":
        text = h.str("text", c["n"], c["alphabet"])
        text = "X " + text if c["f"] == "vis" else text
    else:
        text = fill(h, c["t"])
    got = f(text)
    h.eq(got.replace("_", " "), text, "only blanks are replaced")
    if c["f"] == "ch" or c.get("t", "").count("SM" if c["f"] == "vis" else "WS") < 4:  # three are guaranteed
        h.eq(got, reference(c["f"], text), "prepared text")
        h.eq(f(got), got, "preparing twice")

