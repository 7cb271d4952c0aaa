"""C12: the trends of a METAR inside the two hours after the report."""
import datetime

from props.common import *

BOUNDS = ("METAR of an arbitrary day, hour (00-24) and minute of an arbitrary month of 1996..2032 (thorough 1900..2100) with one "
          "trend of each kind, without period or with FM, TL, AT, FM TL or TL FM, every hour (00-24) and minute inside the two hours "
          "after the report; two trends in both orders with one period each; NOSIG alone; each trend followed by wind, "
          "visibility, up to two weathers and clouds with arbitrary digits")
ASSUMPTIONS = ["the coded day exists in the month", "the coded trend times lie inside the two hours after the report"]
NAMES = {"NOSIG": "no significant changes", "TEMPO": "temporary", "BECMG": "becoming"}
FORMS = ((), ("FM",), ("TL",), ("AT",), ("FM", "TL"), ("TL", "FM"))


def cases(tier):
    ys = [1996, 2032] if tier == "quick" else [1900, 2100]
    out = [{"name": "NOSIG", "trends": [["NOSIG", []]]}]
    for k in ("TEMPO", "BECMG"):
        for f in FORMS:
            out.append({"name": "%s %s" % (k, " ".join(f)), "trends": [[k, list(f)]]})
    for a, b in (("TEMPO", "BECMG"), ("BECMG", "TEMPO"), ("TEMPO", "TEMPO"), ("BECMG", "BECMG")):
        for f in FORMS[:4] if tier == "quick" else FORMS:
            for g in ((), ("FM",)) if tier == "quick" else FORMS[:4]:
                out.append({"name": "%s %s %s %s" % (a, " ".join(f), b, " ".join(g)),
                            "trends": [[a, list(f)], [b, list(g)]], "fixed": len(f) + len(g) > 1})
    for c in out:
        c["years"] = ys
    return out


def moment(h, n, T, day):
    """hhmm inside the window of a report at minute T of the day, and the datetime it means."""
    hh = h.str("h" + n, 2, ["012", DIGITS])
    mm = h.str("m" + n, 2, ["012345", DIGITS])
    H, M = int(hh), int(mm)
    h.assume(H <= 24)
    g = H * 60 + M
    if g >= T:
        h.assume(g - T <= 120)
    else:
        h.assume(g + 1440 - T <= 120)
        day = day + datetime.timedelta(days=1)
    if H == 24:
        day, H = day + datetime.timedelta(days=1), 0
    return hh + mm, datetime.datetime(day.year, day.month, day.day, H, M)


def run(h, c):
    if c.get("fixed"):
        y, m, d, dd = 2023, 12, 31, "31"
    else:
        y = h.int("year", *c["years"])
        m = h.int("month", 1, 12)
        dd = h.str("day", 2, ["0123", DIGITS])
        d = int(dd)
        h.assume((d >= 1) & is_date(y, m, d))
    hh = h.str("hour", 2, ["012", DIGITS])
    mm = h.str("minute", 2, ["012345", DIGITS])
    H, M = int(hh), int(mm)
    h.assume(H <= 24)
    day = datetime.datetime(y, m, d)
    if H == 24:
        day, H = day + datetime.timedelta(days=1), 0
    t = datetime.datetime(day.year, day.month, day.day, H, M)
    end = t + datetime.timedelta(hours=2)
    text, want = "", []
    for i in range(len(c["trends"])):
        k, forms = c["trends"][i]
        code, per = k, {}
        for p in forms:
            s, at = moment(h, p + "%d" % i, H * 60 + M, day)
            code = code + " " + p + s
            per[p] = (p + s, at)
        x = h.str("x%d" % i, 1, DIGITS)
        if k == "NOSIG":
            groups = [None, None, [], []]
            text = text + " " + code
        else:
            groups = ["2%d01%sG2%sKT" % (i, x, x), x + "0%d0" % i, ["SHRA", "BR"][:i + 1], ["BKN0%d%s" % (i, x)]]
            text = text + " " + " ".join([code] + groups[:2] + groups[2] + groups[3])
        want.append((k, code, per, groups))
    r = h.Metar("METAR PADK " + dd + hh + mm + "Z 10005KT 9999 FEW020 25/20 Q1012" + text, y, m)
    h.eq(len(r.weather_trends), len(want), "number of trends")
    h.eq(r.unparsed_groups, [], "unparsed")
    h.eq(r.time.time, t, "report time")
    for i in range(len(want)):
        k, code, per, groups = want[i]
        w = r.weather_trends[i]
        q = w.trend_indicator
        h.eq(q.code, code, "code")
        h.eq(q.translation, NAMES[k], "translation")
        h.eq(q.forecast_period[0].time, t, "forecast period start")
        h.eq(q.forecast_period[1].time, end, "forecast period end")
        h.eq(q.period_from.time, per["FM"][1] if "FM" in per else t, "from")
        h.eq(q.period_until.time, per["TL"][1] if "TL" in per else end, "until")
        if "AT" in per:
            h.eq(q.period_at.time, per["AT"][1], "at")
            h.eq(q.period_at.code, per["AT"][0], "at code")
        else:
            h.eq(q.period_at, None, "at")
        if "FM" in per:
            h.eq(q.period_from.code, per["FM"][0], "from code")
        if "TL" in per:
            h.eq(q.period_until.code, per["TL"][0], "until code")
        h.eq(w.wind.code, groups[0], "wind")
        h.eq(w.prevailing_visibility.code, groups[1], "visibility")
        h.eq(w.weathers.codes, groups[2], "weathers")
        h.eq(w.clouds.codes, groups[3], "clouds")
        if groups[0] is not None:
            h.eq(w.wind.gust_in_knot, int(groups[0][6:8]), "gust")
