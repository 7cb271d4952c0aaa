"""C03: cloud groups."""
from props.common import *

BOUNDS = ("one arbitrary token of 1..10 characters over [A-Z0-9/+-] (8+: not starting with R) in the cloud position of a METAR "
          "body, a TAF body, a METAR trend and a TAF change period; order: four layers FEW/SCT/BKN/OVC/VV with arbitrary "
          "3-digit heights, followed by a fifth one, in the same places")
ASSUMPTIONS = ["heights are compared with the physical factors within 2e-6 relative (1e-6 absolute)"]


def cases(tier):
    out = []
    for ctx in ("metar", "taf", "trend", "change"):
        for n in range(1, 11):
            out.append({"name": "cloud %s len %d" % (ctx, n), "kind": "one", "ctx": ctx, "n": n})
        out.append({"name": "order %s" % ctx, "kind": "order", "ctx": ctx})
    return out


def check_cloud(h, c, code, ref, lab="cloud"):
    cover, oktas, feet, typ = ref
    h.eq(c.code, code, lab + " code")
    h.eq(c.cover, cover, lab + " cover")
    h.eq(c.oktas, oktas, lab + " oktas")
    h.eq(c.cloud_type, typ, lab + " type")
    h.close(c.height_in_feet, feet, lab + " ft")
    h.close(c.height_in_meters, times(feet, FT), lab + " m")
    h.close(c.height_in_kilometers, times(feet, FT / 1000), lab + " km")
    h.close(c.height_in_sea_miles, times(feet, FT / 1852), lab + " nautical miles")


def run(h, c):
    if c["kind"] == "one":
        tok = token(h, "tok", c["n"])
        r, s = section(h, c["ctx"], tok)
        ref = cloud_ref(tok)
        h.eq(len(s.clouds), 0 if ref is None else 1, "number of layers")
        if ref is not None:
            check_cloud(h, s.clouds[0], tok, ref)
            h.eq(tok in r.unparsed_groups, False, "parsed")
        return
    covers = h.choose("covers", (("FEW", "SCT", "BKN", "OVC"), ("OVC", "FEW", "VV", "FEW"), ("SCT", "SCT", "BKN", "SCT")))
    heights = [h.digits("h%d" % i, 3) for i in range(4)]
    toks = [a + b for a, b in zip(covers, heights)]
    last = h.choose("last", ("SCT100", "BKN020CB", "NSC"))
    r, s = section(h, c["ctx"], " ".join(toks) + " " + last)
    h.eq(len(s.clouds), 4, "number of layers")
    h.eq(r.unparsed_groups, [last], "fifth layer is not parsed")
    h.eq(s.clouds.codes, toks, "codes in report order")
    for i in range(4):
        check_cloud(h, s.clouds[i], toks[i], cloud_ref(toks[i]), "layer %d" % i)
