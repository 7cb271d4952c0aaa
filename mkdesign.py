#!/usr/bin/env python3-vt
"""Writes DESIGN.md: design_head.md, one section per property from the harness modules, design_tail.md, planted changes."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
COST = json.load(open(os.path.join(V, "design", "costs.json")))
HOW = json.load(open(os.path.join(V, "design", "how.json")))
out = [open(os.path.join(V, "design", "design_head.md")).read(), "## The properties\n"]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("props." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("* Decided by: " + HOW[p["id"]])
    out.append("* Bounds: " + " ".join(m.BOUNDS.split()))
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append("* Assumes: " + a)
    c = COST.get(p["id"], {})
    out.append("* Cost (8 cores): " + ", ".join("%s %s" % (t, c[t]) for t in ("quick", "thorough") if t in c))
    out.append("* Code: " + ", ".join(p["anchors"]["files"]))
    out.append("")
out.append(open(os.path.join(V, "design", "design_tail.md")).read())
out.append("## Planted changes and what catches them\n")
out.append("Each is in `seeded/<id>/`; it passes the existing tests, and its demonstration fails with it. \"caught\" is the quick check of its own\n"
           "property on a copy with the patch.\n")
out.append("| change | property | needs | breaks | caught by |\n|---|---|---|---|---|")
res = json.load(open(os.path.join(V, "design", "caught.json")))
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["needs"], d["what_it_breaks"], res.get(n, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
