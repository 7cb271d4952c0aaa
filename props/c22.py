"""C22: bounded, ordered, indexable group lists."""
from props.common import *

BOUNDS = ("0 .. capacity + 2 groups of each kind: runway ranges, windshears, METAR trends, maximum and minimum forecast "
          "temperatures (in every interleaving that fits the four slots), TAF changes; weathers and clouds in METAR, TAF, METAR trend and TAF change; "
          "every digit of the groups arbitrary (the first three groups in the longer lists); every index 0..12; another group after the list")
ASSUMPTIONS = []
CAP = {"rvr": 3, "ws": 3, "weather": 3, "cloud": 4, "trend": 2, "TX": 2, "TN": 2, "change": 8}
CTX = ("metar", "taf", "trend", "change")
WX = ("RA", "-SHRA", "BR", "+TSRA", "HZ")
CV = ("FEW", "SCT", "BKN", "OVC", "VV", "FEW")


def cases(tier):
    out = []
    for k in ("rvr", "ws", "trend", "change"):
        for n in range(CAP[k] + 3):
            out.append({"name": "%d %s" % (n, k), "kind": k, "n": n})
    for k in ("weather", "cloud"):
        for ctx in CTX:
            for n in range(CAP[k] + 3):
                out.append({"name": "%d %s %s" % (n, k, ctx), "kind": k, "n": n, "ctx": ctx})
    for n in range(0, 6):
        for p in range(2 ** n):
            t = ["TX" if p >> i & 1 else "TN" for i in range(n)]
            out.append({"name": "temperatures %s" % " ".join(t), "kind": "temp", "types": t, "n": n})
    return out


def check_list(h, lst, codes, cap, lab):
    h.eq(len(lst), len(codes), lab + " length")
    h.eq(lst.codes, codes, lab + " codes")
    h.eq([g.code for g in lst], codes, lab + " iteration")
    h.eq([g.code for g in lst.items], codes, lab + " items")
    for i in range(13):
        o = h.attempt(lst.__getitem__, i)
        if i < len(codes):
            h.eq(o.kind, None, lab + " index inside")
            h.eq(o.value.code, codes[i], lab + " item")
        else:
            h.eq(o.kind, "IndexError" if i < cap else "RangeError", lab + " index outside")


def outcome(h, out, get, codes, cap, extra, lab):
    """A list that fits is complete; the groups beyond the capacity are unparsed or raise the range error."""
    if len(codes) <= cap:
        h.eq(out.kind, None, lab + " constructed")
    if not out.ok:
        h.eq(out.kind, "RangeError", lab + " too many")
        return
    check_list(h, get(out.value), codes[:cap], cap, lab)
    h.eq(out.value.unparsed_groups, codes[cap:] + extra, lab + " unparsed")


def run(h, c):
    k, n = c["kind"], c["n"]
    if k == "rvr":
        g = ["R" + h.digits("r%d" % i, 2) + "/" + h.digits("v%d" % i, 4) for i in range(n)]
        outcome(h, h.attempt(h.Metar, MH + "10005KT 9999 " + " ".join(g + ["RA"])), lambda r: r.runway_ranges, g, 3, [], k)
    elif k == "ws":
        g = ["WS R" + h.digits("r%d" % i, 2) for i in range(n)]
        out = h.attempt(h.Metar, MS + " ".join(g + ["W15/S2"]))
        over = []
        for x in g[3:]:
            over += x.split()
        h.eq(out.kind, None, "constructed")
        check_list(h, out.value.windshears, g[:3], 3, k)
        h.eq(out.value.unparsed_groups, over, "ws unparsed")
    elif k in ("weather", "cloud"):
        if k == "weather":
            g, extra = list(WX[:n]), "FEW020"
        else:
            g, extra = [CV[i] + h.digits("h%d" % i, 3) if i < 3 else CV[i] + "0%d0" % i for i in range(n)], "XYZ1"
        body = " ".join(g + [extra])
        want = ["XYZ1"] if k == "cloud" else []
        ctx = c["ctx"]
        text = {"metar": MH, "taf": TH, "trend": MS + "BECMG ", "change": TH + "10005KT TEMPO 0714/0718 "}[ctx] + body
        out = h.attempt(h.Metar if ctx in ("metar", "trend") else h.Taf, text)

        def get(r):
            s = r.weather_trends[0] if ctx == "trend" else r.changes_forecasted[0] if ctx == "change" else r
            return s.weathers if k == "weather" else s.clouds
        outcome(h, out, get, g, CAP[k], want, k)
    elif k == "temp":
        g = [t + h.digits("t%d" % i, 2) + "/08" + h.str("h%d" % i, 1, "01") + "5Z" if i < 3 else t + "1%d/0712Z" % i
             for i, t in enumerate(c["types"])]
        hi = [x for x in g[:4] if x[:2] == "TX"]
        lo = [x for x in g[:4] if x[:2] == "TN"]
        out = h.attempt(h.Taf, TH + "10005KT 9999 FEW020 " + " ".join(g))
        if len(hi) <= 2 and len(lo) <= 2:
            h.eq(out.kind, None, "constructed")
        if not out.ok:
            h.eq(out.kind, "RangeError", "too many temperatures")
            return
        check_list(h, out.value.max_temperatures, hi[:2], 2, "max temperatures")
        check_list(h, out.value.min_temperatures, lo[:2], 2, "min temperatures")
        h.eq(out.value.unparsed_groups, hi[2:] + lo[2:] + g[4:], "unparsed")
    elif k == "trend":
        g = [("TEMPO", "BECMG", "TEMPO", "BECMG")[i] + " 1001%sKT" % h.digits("s%d" % i, 1) for i in range(n)]
        out = h.attempt(h.Metar, (MS + " ".join(g)).strip())
        if n <= 2:
            outcome(h, out, lambda r: r.weather_trends, g, 2, [], k)
        elif out.ok:
            w = out.value.weather_trends
            h.eq(len(w), 2, "trends")
            h.eq(w[0].wind.code, g[0][6:], "first trend")
            h.eq(w[1].wind.code, g[1][6:], "second trend")
            h.eq(out.value.unparsed_groups, " ".join(g[2:]).split(), "unparsed")
        else:
            h.eq(out.kind, "RangeError", "too many trends")
    else:
        g = [("FM071%d00" % i if i % 3 == 0 else "TEMPO 071%d/0718" % i) + " 1001%sKT" % (
            h.digits("s%d" % i, 1) if i < 3 or i > 7 else "5") for i in range(n)]
        out = h.attempt(h.Taf, TH + " ".join(["10005KT 9999"] + g))
        outcome(h, out, lambda r: r.changes_forecasted, g, 8, [], k)
