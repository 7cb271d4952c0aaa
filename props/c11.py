"""C11: the change periods of a TAF, in order, each FM period ending before its successor."""
import datetime
import itertools

from props.common import *

BOUNDS = ("TAF 0712/0818 with every sequence of 1..3 change groups over the six kinds, every sequence of 4 (thorough: and 5) with two or "
          "more FM/BECMG groups, and six sequences of eight; sequences of up to 2 (thorough 3): every group has an arbitrary day "
          "(07 or 08), hours and, for FM, minute, and carries groups of its own with an arbitrary digit; longer ones: the day, "
          "hour and minute of the FM and BECMG starts are arbitrary (every third FM in the sequences of 5 and 8)")
ASSUMPTIONS = []
KINDS = ("FM", "BECMG", "TEMPO", "PROB30", "PROB40 TEMPO", "PROB40")
NAMES = {"BECMG": "becoming", "TEMPO": "temporary", "PROB30": "probability 30%", "PROB40": "probability 40%",
         "PROB40 TEMPO": "probability 40% temporary", "PROB30 TEMPO": "probability 30% temporary"}
LONG = ("FM TEMPO PROB30 FM|BECMG TEMPO FM FM", "FM TEMPO TEMPO PROB40|PROB30 TEMPO TEMPO BECMG FM",
        "TEMPO FM BECMG PROB30 TEMPO|FM TEMPO TEMPO TEMPO FM", "BECMG FM FM FM|TEMPO PROB30 BECMG BECMG",
        "FM PROB30 TEMPO PROB40 TEMPO TEMPO|PROB30 PROB40 TEMPO FM", "FM FM FM FM|FM FM FM FM")
SKY = ("FEW0", "SCT1", "BKN2", "OVC0")
WX = ("RA", "-SHRA", "TSRA", "BR")


def split(s):
    out = []
    for w in s.replace("|", " ").split():
        if w == "TEMPO" and out and out[-1] in ("PROB30", "PROB40"):
            out[-1] += " TEMPO"
        else:
            out.append(w)
    return out[:8]


def cases(tier):
    out = []
    for k in range(1, 5 if tier == "quick" else 6):
        for seq in itertools.product(KINDS, repeat=k):
            if k >= 4 and len([x for x in seq if x in ("FM", "BECMG")]) < 2:
                continue
            out.append({"name": " ".join(seq), "seq": list(seq)})
    for s in LONG:
        out.append({"name": "long " + s, "seq": split(s)})
    for c in out:
        c["full"] = 2 if tier == "quick" else 3
    return out


def run(h, c):
    seq = c["seq"]
    full = len(seq) <= c["full"]
    base = datetime.datetime(2022, 10, 7)
    parts, want = [], []
    for i in range(len(seq)):
        k = seq[i]
        n = "%d" % i
        moving = full or (k in ("FM", "BECMG") and len(seq) <= 4) or (k == "FM" and i % 3 == 0)
        if moving:
            d1 = h.str("day" + n, 1, "78")
            h1 = h.str("hour" + n, 2, ["012", DIGITS])
            h.assume(int(h1) <= 23)
        else:
            d1, h1 = "7", "1" + str(i)
        lo = base + datetime.timedelta(days=int(d1) - 7, hours=int(h1))
        if k == "FM":
            m1 = h.str("min" + n, 2, ["012345", DIGITS]) if moving else "30"
            code = "FM0" + d1 + h1 + m1
            lo = lo + datetime.timedelta(minutes=int(m1))
            hi = None
        else:
            h2 = h.str("end" + n, 2, ["012", DIGITS]) if full else "20"
            if full:
                h.assume(int(h2) <= 24)
            code = k + " 0" + d1 + h1 + "/08" + h2
            hi = base + datetime.timedelta(days=1, hours=int(h2))
        x = h.str("x" + n, 1, DIGITS) if full or i == 1 else "5"
        wind, vis, cloud = "2" + n + "01" + x + "KT", x + "00" + n, SKY[i % 4] + n + x
        parts.append(code + " " + wind + " " + vis + " " + WX[i % 4] + " " + cloud)
        want.append([k, code, lo, hi, wind, vis, WX[i % 4], cloud])
    end = base + datetime.timedelta(days=1, hours=18)
    for i in range(len(seq)):
        if seq[i] == "FM":
            want[i][3] = end
            for j in range(i + 1, len(seq)):
                if seq[j] in ("FM", "BECMG"):
                    want[i][3] = want[j][2] - datetime.timedelta(hours=1)
                    break
    r = h.Taf("TAF PADK 071130Z 0712/0818 10005KT 9999 FEW020 " + " ".join(parts), 2022, 10)
    h.eq(len(r.changes_forecasted), len(seq), "number of changes")
    h.eq(r.unparsed_groups, [], "unparsed")
    h.eq(r.wind.code, "10005KT", "wind of the body")
    h.eq(r.clouds.codes, ["FEW020"], "clouds of the body")
    h.eq(r.valid.period_until.time, end, "validity")
    for i in range(len(seq)):
        k, code, lo, hi, wind, vis, wx, cloud = want[i]
        p = r.changes_forecasted[i]
        q = p.change_indicator
        h.eq(q.code, code, "indicator code")
        h.eq(q.valid.period_from.time, lo, "from")
        h.eq(q.valid.period_until.time, hi, "until")
        period = "from %s until %s" % (q.valid.period_from.time, q.valid.period_until.time)
        h.eq(q.translation, period if k == "FM" else NAMES[k] + " " + period, "translation")
        h.eq(p.code, parts[i], "period code")
        h.eq(p.wind.code, wind, "wind")
        h.eq(p.wind.speed_in_knot, int(wind[3:5]), "wind speed")
        h.eq(p.prevailing_visibility.code, vis, "visibility")
        h.eq(p.weathers.codes, [wx], "weathers")
        h.eq(p.clouds.codes, [cloud], "clouds")
        h.eq(p.unparsed_groups, [], "unparsed of the period")
