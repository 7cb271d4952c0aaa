#!/usr/bin/env python3
"""Re-run a recorded counterexample on the real package: python3-vt replay.py replays/C01-1.json"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx.harness import ReplayServer  # noqa: E402

r = json.load(open(sys.argv[1]))
s = ReplayServer(os.environ.get("SX_REPO", "/repo"))
rep = s.ask({"mod": r["mod"], "case": r["case"], "inputs": r["inputs"]})
s.stop()
print("inputs:", json.dumps(r["inputs"]))
print("raised:", rep.get("exc"), rep.get("trace", ""))
bad = [x for x in rep.get("results", []) if not x[1]]
for lab, ok, det in bad:
    print("FAILED %s: %s" % (lab, det))
sys.exit(1 if bad or rep.get("exc") else 0)
