"""C28: reports used at the same time do not disturb each other."""
from props.common import *
from props.c19 import fill, periods

BOUNDS = ("two computations, each the construction or a reading (dictionary, text, ceiling and should-be-CAVOK, iteration of all lists) of a METAR or a TAF with "
          "arbitrary unknown tokens (thorough: and one arbitrary digit), of two reports or of the same one, under every schedule: the first runs to any of its entries or exits of functions of the "
          "package (quick: every fourth), then the second to its end or one or two thirds of its way (thorough: every eighth), then the first to its end, then the "
          "second to its end; or the first runs to any statement of the first two activations of each function, then the second to its end")
ASSUMPTIONS = ["switches happen at entries and exits of package functions, the first three yields of its generators and the beginnings of statements (not inside lambdas and comprehensions), at most three times",
               "the caller does not modify the lists and dictionaries it is given"]
TEXTS = {
    "M": "METAR PANC 071400Z AUTO 10005KT 080V120 5000 R12/0800 RA FEW0?0 SCT012 BKN014CB 25/20 Q1012 RETS WS R12 TEMPO FM1430 2000 BR @ BKN0?0 BECMG 9999 SKC RMK AO2",
    "m": "SPECI PAFC 081530Z 2?0?5G35MPS 1 1/2SM SN @ OVC003 M01/M02 A2?92 NOSIG",
    "T": "TAF PAEI 071130Z 0712/0812 10005KT ?000 RA FEW0?0 TX25/0715Z TN12/0806Z FM071500 20010KT 9999 @ PROB30 TEMPO 0716/0718 RA OVC0?0",
    "t": "TAF AMD ZZZZ 081130Z 0812/0918 VRB02KT CAVOK @ BECMG 081?/0820 2?010KT 3000 BR",
}
OPS = ("build", "dictionary", "text", "sky", "lists")
PAIRS = (("M", "m"), ("m", "M"), ("T", "t"), ("t", "T"), ("M", "T"), ("T", "M"), ("m", "m"), ("t", "t"))
PARTS = 4
COUNTS = {}  # switch points of the two computations of a case


def cases(tier):
    q = tier == "quick"
    out = []
    for x, y in PAIRS:
        for k in range(PARTS):
            out.append({"name": "build %s during build %s, part %d" % (y, x, k), "x": x, "y": y, "one": 0, "two": (0,), "part": k, "step": 4 if q else 1,
                        "cuts": 3 if q else 8, "may_be_empty": True})
    for x, y in (("M", "t"), ("T", "m")):
        for one in range(1, len(OPS)):
            out.append({"name": "%s of %s during build %s" % (OPS[one], y, x), "x": x, "y": y, "one": 0, "two": (one,), "part": None, "step": 12 if q else 2,
                        "cuts": 2})
            out.append({"name": "build %s during %s of %s" % (y, OPS[one], x), "x": x, "y": y, "one": one, "two": (0,), "part": None, "step": 6 if q else 1,
                        "cuts": 2})
    for x in "MTmt":
        for one in range(1, len(OPS)):
            out.append({"name": "reads during %s of the same %s" % (OPS[one], x), "x": x, "y": None, "one": one, "two": (1, 2, 3, 4), "part": None, "step": 6 if q else 1,
                        "cuts": 2 if q else 4})
    for x, y in (("M", "m"), ("T", "t"), ("T", "M")) if q else PAIRS:
        for k in range(PARTS):
            out.append({"name": "build %s during a statement of build %s, part %d" % (y, x, k), "x": x, "y": y, "one": 0, "two": (0,), "part": k, "lines": True,
                        "cuts": 1})
    for x in "MTmt":
        for one in range(1, len(OPS)):
            out.append({"name": "reads during a statement of %s of the same %s" % (OPS[one], x), "x": x, "y": None, "one": one, "two": (1, 2, 3, 4), "part": None,
                        "lines": True, "cuts": 1})
    for c in out:
        c["sym"] = () if q else (2,)
    return out


class Points:
    """Switch points: every step-th one of n, those of the given part of PARTS."""

    def __init__(self, n, step, part):
        self.start, self.step = (0, step) if part is None else (part * step, PARTS * step)
        self.n = max(1, (n - self.start + self.step - 1) // self.step)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.start + i * self.step


def make(h, text):
    return (h.Taf if text[:3] == "TAF" else h.Metar)(text, 2022, 10)


def sky(r):
    return [r.clouds.ceiling, r.should_be_cavok(), r.flight_rules] + [[p.clouds.ceiling, p.should_be_cavok(), p.flight_rules] for p in periods(r)]


def lists(r):
    return [[x.code for x in r.clouds], [[x.code, y.code] for x in r.weathers for y in r.clouds], [[x.code, [y.code for y in x.clouds]] for x in periods(r)],
            r.clouds.codes, r.unparsed_groups, len(r.clouds), [r.clouds[i].code for i in range(len(r.clouds))]]


def full(r):
    return [r.as_dict(), r.raw_code, r.sections, r.unparsed_groups, [p.code for p in periods(r)], str(r)]


def op(h, k, text, r):
    """The computation: a thunk with comparable result."""
    if k == 0:
        return lambda: make(h, text)
    return lambda: r.as_dict() if k == 1 else str(r) if k == 2 else sky(r) if k == 3 else lists(r)


def run(h, c):
    h.set_now(2022, 10, 9, 12, 0)
    x = fill(h, TEXTS[c["x"]], "a", c["sym"])
    y = x if c["y"] is None else fill(h, TEXTS[c["y"]], "b", ())
    two = c["two"][0] if len(c["two"]) == 1 else h.choose("read", c["two"])
    rx, ry = make(h, x), make(h, y)
    wx, wy = full(rx), full(ry)
    if c["y"] is None:
        ry = rx
    one, other = op(h, c["one"], x, rx), op(h, two, y, ry)
    key = (c["name"], two, h.symbolic)
    if key not in COUNTS:
        COUNTS[key] = h.lines(one) if "lines" in c else h.events(one), h.events(other)
    n, m = COUNTS[key]
    if "lines" in c:
        if c["part"] is not None:
            n = n[c["part"]::PARTS]
        i = n[h.choose("switch", tuple(range(len(n))))]
    else:
        i = h.choose("switch", Points(n, c["step"], c["part"]))
    cut = h.choose("back", tuple(range(1, c["cuts"] + 1)))
    ra, rb = h.scheduled(i, m * cut // c["cuts"], one, other)
    if c["one"] == 0:
        h.eq(full(ra), wx, "first report")
    else:
        h.eq(ra, one(), "first reading")
    if two == 0:
        h.eq(full(rb), wy, "second report")
    else:
        h.eq(rb, other(), "second reading")
    h.eq(full(rx), wx, "first report afterwards")
    h.eq(full(ry), wy, "second report afterwards")
