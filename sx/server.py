"""Replay server: runs harnesses concretely on the real, unmodified package.

usage: python server.py REPO VERIF fork|same   (JSON request per line on stdin, JSON reply per line on stdout)
"""
import datetime as _dt
import importlib
import io
import json
import os
import signal
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO, VERIF = sys.argv[1], sys.argv[2]
sys.path[:0] = [REPO, VERIF]

_real = _dt.datetime
_rdate = _dt.date


class Clock:
    now = (2022, 10, 6, 12, 0, 0)
    offset = 0
    out = None

    @classmethod
    def local(cls):
        return _real(*cls.now) + _dt.timedelta(minutes=cls.offset)


class FakeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real)


class FakeDatetime(_real, metaclass=FakeMeta):
    @classmethod
    def utcnow(cls):
        return cls(*Clock.now)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def now(cls, tz=None):
        n = Clock.local() if tz is None else _real(*Clock.now) + (tz.utcoffset(None) or _dt.timedelta(0))
        return cls(*n.timetuple()[:6], tzinfo=tz)


class FakeDateMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _rdate)


class FakeDate(_rdate, metaclass=FakeDateMeta):
    @classmethod
    def today(cls):
        return cls(*Clock.local().timetuple()[:3])


class Out(io.StringIO):
    def lines(self):
        return [[x] for x in self.getvalue().splitlines()]


def replay(req, mod, conc, pkg):
    rep = {}
    buf = Out()
    Clock.out = buf
    Clock.now = (2022, 10, 6, 12, 0, 0)
    Clock.offset = 0
    old = sys.stdout
    try:
        signal.setitimer(signal.ITIMER_REAL, req.get("timeout", 8))
        sys.stdout = buf
        h = conc.ConH(req["inputs"], pkg, Clock)
        try:
            mod.run(h, req["case"])
            rep["exc"] = None
        except conc.Skip:
            rep["skip"] = True
        except Exception as e:
            rep["exc"] = type(e).__name__
            rep["trace"] = traceback.format_exc()[-3000:]
        signal.setitimer(signal.ITIMER_REAL, 0)
        rep["results"] = [x for x in h.results if not x[1]]
        rep["observed"] = h.observed
    except BaseException:
        rep["fatal"] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old
    return rep


def on_alarm(*a):
    raise TimeoutError("replay")


def main():
    """With 'fork' every request runs in a process of its own, forked from the freshly imported package."""
    fork = sys.argv[3] == "fork"
    _dt.datetime = FakeDatetime
    _dt.date = FakeDate
    import aeromet_py
    _dt.datetime = _real
    _dt.date = _rdate
    from sx import conc, pkgapi
    pkg = pkgapi.Pkg()
    out = os.fdopen(os.dup(1), "w")
    signal.signal(signal.SIGALRM, on_alarm)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            mod = importlib.import_module("props." + req["mod"])
        except Exception:
            out.write(json.dumps({"fatal": traceback.format_exc()}) + "\n")
            out.flush()
            continue
        if fork:
            pid = os.fork()
            if pid:
                os.waitpid(pid, 0)
                continue
        try:
            out.write(json.dumps(replay(req, mod, conc, pkg)) + "\n")
            out.flush()
        finally:
            if fork:
                os._exit(0)


main()
