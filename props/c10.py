"""C10: TAF periods resolve to the right dates."""
import datetime

from props.common import *

BOUNDS = ("TAF of an arbitrary day, hour (00-24) and minute of an arbitrary month of 1996..2032 (thorough 1900..2100). Validity: "
          "arbitrary hours (end 00-24) and every pair of days 0..3 (thorough 0..27) days after the issue; default validity; one "
          "change period of each kind, with arbitrary hours and every pair of days 0..2 (thorough 0..6) after the start of the "
          "validity, which itself starts 0..2 days after issue; FM with arbitrary day 0..2 (thorough 0..6) after that start, hour "
          "and minute; one TX and one TN with arbitrary hour and day 0..3 (thorough 0..27) after issue")
ASSUMPTIONS = ["the coded day of issue exists in the month"]
KINDS = ("BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO")


def cases(tier):
    q = tier == "quick"
    ys = [1996, 2032] if q else [1900, 2100]
    out = []
    far = range(4) if q else (0, 1, 2, 3, 4, 5, 6, 9, 13, 20, 27)
    for a in far:
        for b in far:
            if b >= a and b - a <= 8 or a - b == 1:
                out.append({"name": "valid +%d +%d" % (a, b), "kind": "valid", "a": a, "b": b})
    out.append({"name": "no validity", "kind": "default"})
    near = range(3) if q else range(7)
    for s in range(2 if q else 3):
        for k in KINDS:
            for a in near:
                for b in near:
                    if (b >= a or a - b == 1) and (not q or k in ("BECMG", "PROB30 TEMPO") or (a, b) in ((0, 1), (1, 1))):
                        out.append({"name": "%s +%d +%d +%d" % (k, s, a, b), "kind": "change", "s": s, "a": a, "b": b, "ind": k})
        for a in near:
            out.append({"name": "FM +%d +%d" % (s, a), "kind": "fm", "s": s, "a": a})
    for t in ("TX", "TN"):
        for a in far:
            out.append({"name": "%s +%d" % (t, a), "kind": "temp", "t": t, "a": a})
    for c in out:
        c["years"] = ys
    return out


def day(h, name, base, k):
    """Two digits of the day k days after base, and the date."""
    d = base + datetime.timedelta(days=k)
    s = h.str(name, 2, ["0123", DIGITS])
    h.assume(int(s) == d.day)
    return s, d


def hour(h, name, top):
    s = h.str(name, 2, ["012", DIGITS])
    h.assume(int(s) <= top)
    return s, int(s)


def check_period(h, v, lo, hi, lab):
    h.eq(v.period_from.time, lo, lab + " from")
    h.eq(v.period_until.time, hi, lab + " until")


def run(h, c):
    y = h.int("year", *c["years"])
    m = h.int("month", 1, 12)
    dd = h.str("day", 2, ["0123", DIGITS])
    d = int(dd)
    h.assume((d >= 1) & is_date(y, m, d))
    hh, H = hour(h, "hour", 24)
    mm = h.str("minute", 2, ["012345", DIGITS])
    issue = datetime.datetime(y, m, d) + datetime.timedelta(days=H // 24, hours=H % 24, minutes=int(mm))
    base = datetime.datetime(issue.year, issue.month, issue.day)
    head = "TAF PADK " + dd + hh + mm + "Z "
    tail = " 10005KT 9999 FEW020"
    if c["kind"] == "default":
        r = h.Taf(head + tail.strip(), y, m)
        start = base + datetime.timedelta(hours=H % 24 + 1)
        check_period(h, r.valid, start, start + datetime.timedelta(hours=24), "default")
        h.eq(r.valid.duration, datetime.timedelta(hours=24), "duration")
        h.eq(r.valid.code, None, "code")
        return
    if c["kind"] == "valid":
        d1, w1 = day(h, "d1", base, c["a"])
        d2, w2 = day(h, "d2", base, c["b"])
        h1, n1 = hour(h, "h1", 23)
        h2, n2 = hour(h, "h2", 24)
        code = d1 + h1 + "/" + d2 + h2
        r = h.Taf(head + code + tail, y, m)
        w1 = w1 + datetime.timedelta(hours=n1)
        w2 = w2 + datetime.timedelta(hours=n2)
        check_period(h, r.valid, w1, w2, "validity")
        h.eq(r.valid.duration, w2 - w1, "duration")
        h.eq(r.valid.code, code, "code")
        h.eq(r.unparsed_groups, [], "unparsed")
        return
    if c["kind"] == "temp":
        d1, w1 = day(h, "d1", base, c["a"])
        h1, n1 = hour(h, "h1", 23)
        code = c["t"] + "15/" + d1 + h1 + "Z"
        r = h.Taf(head + tail.strip() + " " + code, y, m)
        a, b = r.max_temperatures, r.min_temperatures
        if c["t"] == "TN":
            a, b = b, a
        h.eq((len(a), len(b)), (1, 0), "numbers")
        h.eq(a[0].time.time, w1 + datetime.timedelta(hours=n1), "temperature time")
        h.eq(a[0].code, code, "code")
        return
    # the validity starts s days after the issue at 06 and lasts four days
    d0, w0 = day(h, "d0", base, c["s"])
    e0, x0 = day(h, "e0", base, c["s"] + 4)
    head = head + d0 + "06/" + e0 + "12" + tail
    d1, w1 = day(h, "d1", w0, c["a"])
    h1, n1 = hour(h, "h1", 23)
    if c["kind"] == "change":
        d2, w2 = day(h, "d2", w0, c["b"])
        h2, n2 = hour(h, "h2", 24)
        code = c["ind"] + " " + d1 + h1 + "/" + d2 + h2
        lo, hi = w1 + datetime.timedelta(hours=n1), w2 + datetime.timedelta(hours=n2)
    else:
        m1 = h.str("m1", 2, ["012345", DIGITS])
        code = "FM" + d1 + h1 + m1
        lo, hi = w1 + datetime.timedelta(hours=n1, minutes=int(m1)), x0 + datetime.timedelta(hours=12)
    r = h.Taf(head + " " + code + " 20010KT", y, m)
    h.eq(len(r.changes_forecasted), 1, "number of changes")
    v = r.changes_forecasted[0].change_indicator
    check_period(h, v.valid, lo, hi, "change")
    h.eq(v.valid.duration, hi - lo, "duration")
    h.eq(v.code, code, "code")
    h.eq(r.unparsed_groups, [], "unparsed")
