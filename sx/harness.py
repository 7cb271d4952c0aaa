"""Symbolic side of the harness API and the exploration of one case."""
from __future__ import annotations

import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from fractions import Fraction

import z3

from . import core, dt, sched, shims
from .conc import Outcome, kind as ckind
from .core import (ALL, Budget, Control, Engine, Fmt, PathEnd, Stats, SymBool, SymChar, SymFloat, SymInt,
                   SymReal, Unsupported, b_and, b_not, b_or, mask_of)
from .dt import SymDT, SymTD, SymDate
from .sstr import SymStr, mk, s_eq

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
METAR_ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+-"


def kind(x):
    t = shims.type_of(x)
    if isinstance(x, core.SYM) or isinstance(x, SymReal):
        if isinstance(x, SymReal):
            return "number"
        return {str: "str", bool: "bool", int: "number", float: "number"}.get(t) or (
            "timedelta" if isinstance(x, SymTD) else "date" if isinstance(x, SymDate) else "datetime")
    return ckind(x)


def eq_cond(a, b):
    """Condition that two values are the same (see conc.same)."""
    ka, kb = kind(a), kind(b)
    if ka != kb:
        return False
    if ka == "list":
        if len(a) != len(b):
            return False
        return b_and([eq_cond(x, y) for x, y in zip(a, b)])
    if ka == "dict":
        if any(isinstance(k, core.SYM) for k in a) or any(isinstance(k, core.SYM) for k in b):
            a = {shims.realize(k): v for k, v in a.items()}
            b = {shims.realize(k): v for k, v in b.items()}
        if set(a) != set(b):
            return False
        return b_and([eq_cond(a[k], b[k]) for k in a])
    if ka == "None":
        return True
    r = a == b
    if r is NotImplemented:
        r = False
    return r


# --------------------------------------------------------------------------- models
def ev(x, m):
    """Value of x under a z3 model."""
    def num(e):
        return m.eval(e, model_completion=True).as_long()
    if isinstance(x, SymStr):
        out = []
        for a in x.a:
            if type(a) is str:
                out.append(a)
            elif type(a) is SymChar:
                out.append(chr(num(a.expr)))
            else:
                out.append(a.at(num(a.x.n.expr)))
        return "".join(out)
    if isinstance(x, SymInt):
        return num(x.expr)
    if isinstance(x, SymFloat):
        return x.f(num(x.n.expr))
    if isinstance(x, SymBool):
        return z3.is_true(m.eval(x.expr, model_completion=True))
    if isinstance(x, SymDate):
        import datetime
        return datetime.date(*[ev(v, m) if isinstance(v, SymInt) else v for v in x._f()[:3]])
    if isinstance(x, SymDT):
        import datetime
        return datetime.datetime(*[ev(v, m) if isinstance(v, SymInt) else v for v in x._f()])
    if isinstance(x, SymTD):
        import datetime
        return datetime.timedelta(seconds=ev(x.s, m))
    if isinstance(x, list):
        return [ev(v, m) for v in x]
    if isinstance(x, tuple):
        return [ev(v, m) for v in x]
    if type(x) is dict:
        return {ev(k, m): ev(v, m) for k, v in x.items()}
    return x


class SymH:
    symbolic = True

    def __init__(self, runner, engine):
        self.r, self.e = runner, engine
        self.obs = []
        self.cands = []
        self.npath = 0

    def __getattr__(self, name):
        return getattr(self.r.pkg, name)

    # -- inputs
    def _reg(self, name, v):
        self.e.inputs[name] = v
        return v

    def str(self, name, n, alphabet=None):
        """n arbitrary characters; alphabet is one set or a list of sets per position."""
        if n == 0:
            return self._reg(name, "")
        if alphabet is None:
            alphabet = METAR_ALPHABET
        chars = []
        for i in range(n):
            al = alphabet if isinstance(alphabet, str) else alphabet[i]
            if len(al) == 1:
                chars.append(al)
                continue
            cn = "%s.%d" % (name, i)
            self.e.live.add(cn)
            chars.append(self.e.char(cn, mask_of(al)))
        return self._reg(name, mk(tuple(chars)))

    def digits(self, name, n):
        return self.str(name, n, "0123456789")

    def int(self, name, lo, hi):
        if lo == hi:
            return self._reg(name, lo)
        e = z3.Int(name)
        self.e.solver.add(e >= lo, e <= hi)
        return self._reg(name, SymInt(e, lo, hi, frozenset((name,))))

    def choose(self, name, options):
        k = self.e.pick(len(options))
        self._reg(name, k)
        return options[k]

    def bool(self, name):
        return self.choose(name, (False, True))

    def assume(self, cond):
        self.e.assume(cond)

    def set_now(self, y, mo, d, h=0, mi=0, offset=0):
        """The UTC instant of the clock, and by how many minutes the local time is ahead of it."""
        self.e.now = dt.mkdt(y, mo, d, h, mi)
        self.e.offset = offset

    def printed(self):
        return list(self.e.printed)

    # -- verdicts
    def _verdict(self, cond, label):
        self.r.obligations += 1
        m = self.e.prove(cond)
        if m is True:
            return
        if m is None:
            self.e.stats.incomplete.append("solver gave no answer for %s" % label)
            return
        self.cands.append((label, self._inputs(m)))

    def _inputs(self, m):
        return {k: ev(v, m) for k, v in self.e.inputs.items()}

    def check(self, cond, label, *detail):
        self._verdict(cond, label)

    def eq(self, actual, expected, label):
        self.obs.append((label, actual))
        self._verdict(eq_cond(actual, expected), label)

    def none(self, actual, label):
        self.eq(actual, None, label)

    def observe(self, label, value):
        self.obs.append((label, value))

    def close(self, actual, expected, label, rel=Fraction(2, 10 ** 6), abs_=Fraction(1, 10 ** 6)):
        self.obs.append((label, actual))
        if expected is None or actual is None or kind(actual) != "number":
            self._verdict(actual is None and expected is None, label)
            return
        if not isinstance(actual, (SymFloat, SymInt, SymBool)):
            if isinstance(actual, float) and actual != actual or actual in (float("inf"), float("-inf")):
                self._verdict(False, label)
                return
            A = SymReal(z3.RealVal(Fraction(actual)))
            err = Fraction(0)
            deps = frozenset()
        elif isinstance(actual, SymFloat):
            a, b, err = actual.lin
            if err > abs_ / 4:  # rounded somewhere: too loose an enclosure, so value by value
                self.obs.pop()
                return self.close(actual.realize(), expected, label, rel, abs_)
            A = SymReal(z3.RealVal(a) * z3.ToReal(actual.n.expr) + z3.RealVal(b))
            deps = actual.n.deps
        else:
            A, err = SymReal.co(actual if isinstance(actual, SymInt) else actual._i()), Fraction(0)
            deps = actual.deps
        if isinstance(expected, SymFloat):
            ea, eb, eerr = expected.lin
            if eerr > abs_ / 4:
                self.obs.pop()
                return self.close(actual, expected.realize(), label, rel, abs_)
            err += eerr
            X = SymReal(z3.RealVal(ea) * z3.ToReal(expected.n.expr) + z3.RealVal(eb))
        else:
            X = SymReal.co(expected)
        if not deps and isinstance(expected, (int, float, Fraction)):
            e = Fraction(expected)
            self._verdict(abs(Fraction(actual) - e) <= rel * abs(e) + abs_, label)
            return
        d = A.expr - X.expr
        tol = z3.RealVal(rel) * z3.If(X.expr >= 0, X.expr, -X.expr) + z3.RealVal(abs_ - err)
        self._verdict(SymBool(z3.And(d <= tol, -d <= tol), None, deps or frozenset(("close",))), label)

    def attempt(self, fn, *a, **k):
        try:
            return Outcome(shims.call(fn, *a, **k))
        except Exception as e:
            if self.e.aborting:
                raise self.e.aborting
            return Outcome(None, e)

    def events(self, fn):
        return sched.events(fn)

    def lines(self, fn):
        return sched.lines(fn)

    def scheduled(self, a, b, first, second):
        return sched.scheduled(a, b, first, second)

    def state(self):
        return None


class ReplayServer:
    def __init__(self, repo, mode="fork"):
        self.repo, self.mode = repo, mode
        self.p = None
        self.pending = []

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", TZ="UTC", PYTHONHASHSEED="0")
        env.pop("PYTHONPATH", None)
        py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
        self.p = subprocess.Popen([py, os.path.join(VERIF, "sx", "server.py"), self.repo, VERIF, self.mode],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  text=True, env=env)

    def post(self, req, then):
        """Send a request; the answer is handed to then() later."""
        while len(self.pending) >= 6:
            self.receive()
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass
        self.pending.append(then)

    def receive(self):
        then = self.pending.pop(0)
        try:
            line = self.p.stdout.readline() if self.p else ""
        except (BrokenPipeError, OSError):
            line = ""
        if not line:
            self.p = None
            then({"fatal": "replay server ended"})
        else:
            then(json.loads(line))

    def drain(self):
        while self.pending:
            self.receive()

    def ask(self, req):
        self.drain()
        out = []
        self.post(req, out.append)
        self.drain()
        return out[0]

    def stop(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


class PathTimeout(Control):
    pass


def freeze(x):
    from .conc import norm
    return json.loads(json.dumps(norm(x)))


class CaseRunner:
    """Explores a case of a harness module (or part of it) in this process."""

    def __init__(self, mod, modname, pkg, repo, state, seed):
        self.mod, self.modname, self.pkg, self.repo, self.state = mod, modname, pkg, repo, state
        self.server = ReplayServer(repo)  # a fresh process per replay
        self.bulk = ReplayServer(repo, "same")  # for agreement checks; any difference is asked again afresh
        self.seed = seed
        self.obligations = 0

    def run(self, case, work, budget_s, validate=True, path_timeout=60, first=False):
        """Returns a result dict; unexplored prefixes are handed back in 'left'."""
        eng = Engine(timeout_ms=15000)
        eng.work = work
        eng.aborting = None
        self.obligations = 0
        t0 = time.time()
        res = {"violations": [], "mismatch": [], "samples": [], "validated": 0, "reach": {}, "excs": {}}
        h = SymH(self, eng)
        rnd = random.Random(self.seed)

        def alarm(*a):
            eng.aborting = PathTimeout("path time")
            raise eng.aborting
        signal.signal(signal.SIGALRM, alarm)
        while eng.work:
            if time.time() - t0 > budget_s:
                break
            prefix = eng.work.pop()
            eng.begin(prefix)
            self.state.restore()
            eng.aborting = None
            h.obs, h.cands = [], []
            signal.setitimer(signal.ITIMER_REAL, path_timeout)
            exc = None
            try:
                try:
                    self.mod.run(h, case)
                    if eng.aborting:
                        raise eng.aborting
                except Exception as e:
                    if eng.aborting:
                        raise eng.aborting
                    exc = e
                    exc_tb = traceback.format_exc()
                except Control as e:
                    raise
                eng.stats.paths += 1
                signal.setitimer(signal.ITIMER_REAL, 0)
                self._finish(h, eng, case, exc, exc and exc_tb, res, rnd, validate)
            except PathEnd:
                eng.stats.ended += 1
            except PathTimeout as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self._hang(h, eng, case, res, "time")
            except Budget as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self._hang(h, eng, case, res, "steps")
            except Unsupported as e:
                eng.stats.paths += 1
                eng.stats.incomplete.append("unsupported: %s" % e)
            except RecursionError:
                eng.stats.incomplete.append("recursion")
            except z3.Z3Exception as e:
                eng.stats.incomplete.append("z3: %s" % e)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                eng.end()
            if len(res["violations"]) >= 3:
                eng.work = []
                break
        self.bulk.drain()
        res["left"] = eng.work
        res["stats"] = eng.stats.as_dict()
        res["obligations"] = self.obligations
        res["wall"] = time.time() - t0
        return res

    def _ask(self, case, inputs):
        return self.server.ask({"mod": self.modname, "case": case, "inputs": inputs})

    def _hang(self, h, eng, case, res, what):
        eng.stats.paths += 1
        m = eng._check()
        if m == z3.sat:
            inputs = h._inputs(eng.solver.model())
            rep = self._ask(case, inputs)
            if rep.get("exc") == "TimeoutError":
                res["violations"].append({"label": "terminates", "case": case, "inputs": inputs,
                                          "detail": "no result within the replay time limit"})
                return
            if rep.get("exc"):
                res["violations"].append({"label": "raises %s" % rep["exc"], "case": case, "inputs": inputs,
                                          "detail": rep.get("trace", "")})
                return
            for lab, ok, det in rep.get("results", []):
                if not ok:
                    res["violations"].append({"label": lab, "case": case, "inputs": inputs, "detail": det})
                    return
        eng.stats.incomplete.append("path cut by %s" % what)

    def _finish(self, h, eng, case, exc, tb, res, rnd, validate):
        if exc is not None:
            k = type(exc).__name__
            res["excs"][k] = res["excs"].get(k, 0) + 1
            m = eng._check()
            if m == z3.sat:
                h.cands.append(("raises " + k, h._inputs(eng.solver.model())))
            else:
                eng.stats.incomplete.append("exception path without model")
        confirmed = False
        for label, inputs in h.cands:
            rep = self._ask(case, inputs)
            eng.stats.replays += 1
            bad = self._bad(rep, label)
            if bad:
                confirmed = True
                res["violations"].append({"label": bad[0], "case": case, "inputs": inputs, "detail": bad[1]})
            else:
                res["mismatch"].append({"why": "counterexample did not reproduce: %s" % label, "case": case,
                                        "inputs": inputs, "trace": (tb or "")[-1200:],
                                        "replay": json.dumps({k: v for k, v in rep.items() if k != "observed"})[:600]})
        if confirmed or not validate or exc is not None:
            return
        m = eng.model(rnd)
        if m is None:
            eng.stats.incomplete.append("no model for validation")
            return
        inputs = h._inputs(m)
        obs = [[lab, freeze(ev(v, m))] for lab, v in h.obs]
        had = bool(h.cands)
        eng.stats.replays += 1
        self.bulk.post({"mod": self.modname, "case": case, "inputs": inputs},
                       lambda rep: self._validated(rep, case, inputs, obs, had, res))

    def _validated(self, rep, case, inputs, obs, had, res):
        if self._bad(rep, None) or rep.get("observed") != obs:
            rep = self._ask(case, inputs)
        bad = self._bad(rep, None)
        if bad and not had:
            # the real code fails although the encoding proved the path: report it, and say so
            res["violations"].append({"label": bad[0], "case": case, "inputs": inputs, "detail": bad[1]})
            res["mismatch"].append({"why": "real code fails on a proved path", "case": case, "inputs": inputs,
                                    "replay": json.dumps(rep)[:1500]})
            return
        if rep.get("observed") != obs:
            diff = next(((a, b) for a, b in zip(obs, rep.get("observed") or []) if a != b), (len(obs), len(rep.get("observed") or [])))
            res["mismatch"].append({"why": "observation differs", "case": case, "inputs": inputs, "diff": str(diff)[:800],
                                    "replay": json.dumps({k: v for k, v in rep.items() if k != "observed"})[:800]})
            return
        res["validated"] += 1
        if len(res["samples"]) < 2:
            res["samples"].append({"case": case, "inputs": inputs})

    @staticmethod
    def _bad(rep, label):
        """(label, detail) of a concrete failure, preferring the given label."""
        if rep.get("fatal"):
            return None
        if rep.get("skip"):
            return None
        fails = [(l, d) for l, ok, d in rep.get("results", []) if not ok]
        for l, d in fails:
            if l == label:
                return l, d
        if rep.get("exc"):
            if not fails:
                return "raises " + rep["exc"], rep.get("trace", "")
        if fails:
            return fails[0]
        return None
