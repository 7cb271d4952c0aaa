"""usage: python3-vt -m sx.run <id> [--tier quick|thorough] [--case SUBSTR] [--serial]"""
from __future__ import annotations

import argparse
import importlib.machinery
import importlib.util
import json
import multiprocessing as mp
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "sx.run"] + sys.argv[1:])

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(6000)

from sx import core, harness, instr, pkgapi  # noqa: E402

SLICE = 4.0
_G = {}


def load_props(name):
    fn = os.path.join(VERIF, "props", name + ".py")
    spec = importlib.util.spec_from_file_location("props." + name, fn, loader=instr.Loader(fn))
    mod = importlib.util.module_from_spec(spec)
    sys.modules["props." + name] = mod
    spec.loader.exec_module(mod)
    return mod


class PropsFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == "props":
            s = importlib.machinery.ModuleSpec(name, None, is_package=True)
            s.submodule_search_locations = [os.path.join(VERIF, "props")]
            return s
        if name.startswith("props."):
            fn = os.path.join(VERIF, "props", name.split(".", 1)[1] + ".py")
            if os.path.exists(fn):
                return importlib.util.spec_from_file_location(name, fn, loader=instr.Loader(fn))
        return None


def worker_init(modname, seed, strict):
    r = harness.CaseRunner(_G["mod"], modname, _G["pkg"], instr.ROOT, _G["state"], seed)
    _G["runner"] = r


def task(arg):
    ci, prefixes, budget, validate = arg
    case = _G["cases"][ci]
    try:
        res = _G["runner"].run(case, prefixes, budget, validate)
    except BaseException as e:  # an engine failure must not hang the pool
        import traceback
        res = {"violations": [], "mismatch": [], "samples": [], "validated": 0, "left": [], "obligations": 0,
               "wall": 0, "excs": {}, "stats": core.Stats().as_dict(), "reach": {}}
        res["stats"]["incomplete"] = ["engine: " + traceback.format_exc()[-1500:]]
        if os.environ.get("SX_STRICT"):
            print(res["stats"]["incomplete"][0], file=sys.stderr)
    return ci, res


def chunk(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def known():
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f)["findings"]


def matches(entry, v, pid):
    """A listed finding matches a violation by property, label and the exact listed inputs."""
    if entry.get("status") != "known" or entry["property"] != pid:
        return False
    if "label" in entry and entry["label"] != v["label"]:
        return False
    for k, val in entry.get("inputs", {}).items():
        if v["inputs"].get(k) != val:
            return False
    return all(v["case"].get(k) == val for k, val in entry.get("case", {}).items())


def functions_encoded():
    import ast
    out = []
    for name, m in sorted(instr.LOADED.items()):
        if not name.startswith("aeromet_py") or not getattr(m, "__file__", None):
            continue
        with open(m.__file__, encoding="utf-8") as f:
            t = ast.parse(f.read())
        n = sum(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(t))
        if n:
            out.append("%s: %d functions" % (name, n))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--limit", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.id.upper()
    modname = pid.lower()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    strict = bool(os.environ.get("SX_STRICT"))
    t0 = time.time()
    sys.meta_path.insert(0, PropsFinder)
    try:
        instr.install()
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("ERROR: the package under test could not be loaded: %s" % e)
        return 2
    _G["pkg"] = pkgapi.Pkg()
    _G["mod"] = mod = importlib.import_module("props." + modname)
    _G["state"] = instr.State()
    cases = list(mod.cases(a.tier))
    if a.case:
        cases = [c for c in cases if a.case in c["name"]]
    _G["cases"] = cases
    limit = a.limit or (getattr(mod, "LIMIT", {}).get(a.tier) or (300 if a.tier == "quick" else 800))
    deadline = t0 + limit
    tot = core.Stats()
    agg = {"violations": [], "mismatch": [], "samples": [], "validated": 0, "obligations": 0, "excs": {}}
    per = [[0, 0.0, 0] for _ in cases]
    unfinished = 0
    validate = True

    def absorb(ci, res):
        for f in core.Stats.FIELDS:
            setattr(tot, f, getattr(tot, f) + res["stats"][f])
        tot.solver_s += res["stats"]["solver_s"]
        for x in res["stats"]["incomplete"]:
            tot.incomplete.append("%s: %s" % (cases[ci]["name"], x))
        for k in ("violations", "mismatch"):
            agg[k] += res[k]
        if len(agg["samples"]) < 12 and per[ci][0] == 0:
            agg["samples"] += res["samples"][:1]
        agg["validated"] += res["validated"]
        agg["obligations"] += res["obligations"]
        for k, v in res["excs"].items():
            agg["excs"][k] = agg["excs"].get(k, 0) + v
        per[ci][0] += res["stats"]["paths"]
        per[ci][1] += res["wall"]
        per[ci][2] += res["obligations"]

    todo = [(i, [[]]) for i in range(len(cases))]
    if a.serial:
        worker_init(modname, seed, strict)
        for i, pre in todo:
            ci, res = task((i, pre, a.limit or 1e9, validate))
            absorb(ci, res)
            if a.v:
                print(cases[ci]["name"], per[ci], flush=True)
    else:
        nproc = min(8, os.cpu_count() or 4)
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, worker_init, (modname, seed, strict)) as pool:
            pend = []
            stopped = False
            queue = list(reversed(todo))
            while queue or pend:
                while queue and len(pend) < nproc + 4:
                    ci, pre = queue.pop()
                    left = deadline - time.time()
                    if left <= 0 or stopped:
                        unfinished += 1
                        continue
                    idle = len(queue) < nproc
                    pend.append(pool.apply_async(task, ((ci, pre, min(left, 1.0 if idle else SLICE), validate),)))
                if not pend:
                    break
                done = [p for p in pend if p.ready()]
                if not done:
                    pend[0].wait(0.01)
                    if time.time() > deadline + 90:
                        tot.incomplete.append("a worker did not return")
                        pool.terminate()
                        break
                    continue
                for p in done:
                    pend.remove(p)
                    ci, res = p.get()
                    absorb(ci, res)
                    if res["left"]:
                        n = nproc if len(queue) + len(pend) < 2 * nproc else 1
                        for ch in chunk(res["left"], n):
                            queue.append((ci, ch))
                    if len(agg["violations"]) >= 12:
                        stopped = True
            pool.close()
            pool.terminate()
    if core.FORKS:
        for k, v in sorted(core.FORKS.items(), key=lambda z: -z[1])[:30]:
            print("FORK %6d %s" % (v, k))
    if unfinished:
        tot.incomplete.append("time limit %ds: %d work items unexplored" % (limit, unfinished))
    # verdicts
    vac = [c["name"] for c, p in zip(cases, per) if p[0] == 0 or p[2] == 0 and not getattr(mod, "NO_OBLIGATIONS", False)]
    vac = [n for n in vac if not any(c["name"] == n and c.get("may_be_empty") for c in cases)]
    if vac and not agg["violations"]:
        tot.incomplete.append("vacuous cases: %s" % ", ".join(vac[:5]))
    kf = known()
    new, old = [], []
    for v in agg["violations"]:
        hit = next((e for e in kf if matches(e, v, pid)), None)
        (old if hit else new).append((v, hit))
    for e in kf:
        if e.get("status") == "known" and e["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    wall = time.time() - t0
    exhaustive = not tot.incomplete and not agg["mismatch"]
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.paths,
            "transitions": tot.branches,
            "traces_validated_against_impl": agg["validated"],
            "samples": agg["samples"][:12] or [{"note": "no path completed"}],
            "cases": len(cases),
            "forks": tot.forks,
            "obligations": agg["obligations"],
            "obligations_by_solver": tot.proved,
            "obligations_by_constant_folding": tot.trivial,
            "queries": tot.queries,
            "solver_s": round(tot.solver_s, 2),
            "solver_unknown": tot.unknown,
            "enumerated_values": tot.realized,
            "replays_on_real_package": tot.replays,
            "encoding_mismatches": len(agg["mismatch"]),
            "paths_pruned_by_assumptions": tot.ended,
            "exhaustive": exhaustive,
            "inconclusive": sorted(set(tot.incomplete))[:40],
            "bounds": getattr(mod, "BOUNDS", ""),
            "per_case": [{"case": c["name"], "paths": p[0], "cpu_s": round(p[1], 2), "obligations": p[2]}
                         for c, p in sorted(zip(cases, per), key=lambda z: -z[1][1])][:40],
            "functions_encoded": functions_encoded(),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d cases, %d paths, %d branches, %d obligations (%d by solver), %d queries, solver %.1fs, "
          "%d validated replays, %d mismatches, wall %.1fs%s" % (
              pid, a.tier, len(cases), tot.paths, tot.branches, agg["obligations"], tot.proved, tot.queries, tot.solver_s,
              agg["validated"], len(agg["mismatch"]), wall, "" if exhaustive else "  [INCONCLUSIVE parts]"))
    if a.v or strict:
        for c, p in sorted(zip(cases, per), key=lambda z: -z[1][1])[:15]:
            print("   %-50s paths %6d cpu %.1f obl %d" % (c["name"], p[0], p[1], p[2]))
    for x in sorted(set(tot.incomplete))[:10]:
        print("INCONCLUSIVE: %s" % x)
    shown = set()
    for m in agg["mismatch"]:
        key = m["why"] + m["case"]["name"].split(" len")[0]
        if key in shown or len(shown) > (40 if a.v else 3):
            continue
        shown.add(key)
        print("ENCODING MISMATCH: %s" % json.dumps(m)[:3000].replace("\\n", "\n"))
    if new:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        first = None
        for v, _ in new:
            if v["label"] in seen and len(seen) > 0:
                continue
            seen.add(v["label"])
            fn = os.path.join(rd, "%s-%d.json" % (pid, len(seen)))
            with open(fn, "w") as f:
                json.dump({"property": pid, "mod": modname, "case": v["case"], "inputs": v["inputs"],
                           "label": v["label"], "detail": v["detail"]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, fn))
            print("   %s | case %s | inputs %s | %s" % (v["label"], v["case"].get("name"), json.dumps(v["inputs"])[:400],
                                                       v["detail"][-700:]))
        return 1
    if strict and (agg["mismatch"] or tot.incomplete):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
