#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness modules present in props/."""
import json
import os

V = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Every path of the package's own code (recompiled from /repo at each run into a symbolic executor) within the stated "
        "bounds, each obligation decided by z3 over all remaining input values; every path is also run concretely on the "
        "unmodified package and compared. Trusts: the executor in sx/ (checked by those replays), z3. Assumes: ASCII groups of "
        "the stated alphabet and lengths; ")
checks = []
na = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(V, "props", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt -m sx.run %s --tier quick" % pid,
            "thorough_cmd": "python3-vt -m sx.run %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the package's Python code, z3 verdicts, counterexamples replayed concretely",
            "level": "model_checking",
            "level_note": NOTE + "bounds in the check's evidence file and DESIGN.md.",
        })
    else:
        na.append({"property": pid, "reason": "harness not written yet"})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na,
     "notes": "No hooks: nothing in /repo is guarded. Repairs are the fix: commits listed in known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
