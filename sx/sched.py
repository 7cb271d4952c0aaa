"""Two computations under a given schedule: used by the symbolic and the concrete harness alike.

The switch points are the entries and exits of functions of the package (not of lambdas, comprehensions) and the first
yields of its generators, so that they are the same for the recompiled and for the original package. The two run in threads
of their own, one at a time."""
import ast
import os
import sys
import threading


class Killed(BaseException):
    pass


YIELDS = 3  # of each generator function, in each computation


def counted(code):
    return "aeromet_py" in code.co_filename and code.co_name[0] != "<" and not code.co_flags & 0x280  # no coroutines


_mon = sys.monitoring
_TOOL = 4
_hooks = {}  # thread -> what to do at a switch point


def _event(code, *a):
    if not counted(code):
        return _mon.DISABLE
    if code.co_flags & 0x20:  # a generator: _yielded sees it
        return _mon.DISABLE
    f = _hooks.get(threading.get_ident())
    if f is not None:
        f[0]()


def _started(code, *a):
    if not counted(code):
        return _mon.DISABLE
    f = _hooks.get(threading.get_ident())
    if f is None:
        return
    lines = f[2]
    if lines is not None:
        n = lines.acts[code] = lines.acts.get(code, 0) + 1
        if n <= ACTS:
            lines.frames[id(sys._getframe(1))] = [n, set()]
        else:
            lines.frames.pop(id(sys._getframe(1)), None)
    return _event(code)


def _line(code, line):
    if not counted(code) or line not in statements(code.co_filename):
        return _mon.DISABLE
    f = _hooks.get(threading.get_ident())
    if f is None or f[2] is None:
        return
    if f[2].acts.get(code, 0) > ACTS:
        return _mon.DISABLE  # until the next _hook
    act = f[2].frames.get(id(sys._getframe(1)))
    if act is not None and line not in act[1]:
        act[1].add(line)
        f[2].hook((os.path.basename(os.path.dirname(code.co_filename)) + "/" + os.path.basename(code.co_filename), line, act[0]))


ACTS = 2  # activations of each function whose statements are switch points
_stmts = {}


def statements(fn):
    """Lines where the statements of a file begin."""
    if fn not in _stmts:
        with open(fn) as f:
            _stmts[fn] = {x.lineno for x in ast.walk(ast.parse(f.read())) if isinstance(x, ast.stmt)
                          and not isinstance(x, (ast.FunctionDef, ast.ClassDef))}
    return _stmts[fn]


class Lines:
    def __init__(self, hook):
        self.hook, self.acts, self.frames = hook, {}, {}


def _yielded(code, *a):
    if not counted(code):
        return _mon.DISABLE
    f = _hooks.get(threading.get_ident())
    if f is not None:
        k = f[1][code] = f[1].get(code, 0) + 1
        if k <= YIELDS:
            f[0]()


def _hook(f, lines=None):
    """Install f (None: remove) as the hook of this thread; returns the previous one."""
    me = threading.get_ident()
    old = _hooks.pop(me, None)
    if f is not None:
        _hooks[me] = f if type(f) is tuple else (f, {}, lines and Lines(lines))
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "sched")
        _mon.register_callback(_TOOL, _mon.events.PY_START, _started)
        _mon.register_callback(_TOOL, _mon.events.PY_RETURN, _event)
        _mon.register_callback(_TOOL, _mon.events.PY_YIELD, _yielded)
        _mon.register_callback(_TOOL, _mon.events.LINE, _line)
    ev = _mon.events.PY_START | _mon.events.PY_RETURN | _mon.events.PY_YIELD if _hooks else 0
    if lines is not None:
        _mon.restart_events()
    _mon.set_events(_TOOL, ev | (_mon.events.LINE if any(x[2] is not None for x in _hooks.values()) else 0))
    return old


def events(fn):
    """Number of switch points of fn()."""
    n = [0]

    def prof():
        n[0] += 1
    old = _hook(prof)
    try:
        fn()
    finally:
        _hook(old)
    return n[0]


def lines(fn):
    """The statements of package functions that fn() runs (file, line, activation of the function), each at its first time."""
    seen = set()
    old = _hook(lambda: None, seen.add)
    try:
        fn()
    finally:
        _hook(old)
    return sorted(seen)


class Second(threading.Thread):
    def __init__(self, fn, at):
        super().__init__(daemon=True)
        self.fn, self.at, self.n = fn, at, 0
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.over = self.kill = False
        self.value = self.exc = None

    def prof(self):
        if self.n == self.at:
            self.back.release()
            self.go.acquire()
            if self.kill:
                raise Killed()
        self.n += 1

    def run(self):
        self.go.acquire()
        _hook(self.prof)
        try:
            if not self.kill:
                self.value = self.fn()
        except Killed:
            pass
        except BaseException as e:
            self.exc = e
        finally:
            _hook(None)
            self.over = True
            self.back.release()

    def step(self):
        """Let it run to its switch point or its end."""
        if not self.over:
            self.go.release()
            self.back.acquire()
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e


def scheduled(a, b, first, second):
    """first() up to its a-th switch point (or to the statement a of lines(first)), second() up to its b-th, then the rest of first(), then that of second(); both results."""
    other = Second(second, b)
    other.start()
    n = [0]

    def prof():
        k = n[0]
        n[0] += 1
        if k == a:
            other.step()

    def line(key):
        if key == a:
            other.step()
    try:
        old = _hook(prof, line if type(a) is tuple else None)
        try:
            value = first()
        finally:
            _hook(old)
        while not other.over:
            other.step()
    finally:
        if not other.over:
            other.kill = True
            other.go.release()
        other.join(5)
    return value, other.value
