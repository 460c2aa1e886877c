"""Execution positions: every line of featuretools executed is an event the simulator can count and
act on (sys.monitoring, CPython 3.12). Used for asynchronous interrupts and thread preemption."""
import contextlib
import os
import sys

from sim import util

TOOL = 4
_M = sys.monitoring
_PREFIX = None


def prefix():
    global _PREFIX
    if _PREFIX is None:
        _PREFIX = os.path.join(util.REPO, "featuretools") + os.sep
    return _PREFIX


class _State:
    cb = None


def _on_line(code, line):
    if not code.co_filename.startswith(prefix()):
        return _M.DISABLE
    cb = _State.cb
    if cb is not None:
        cb(code, line)


def install():
    if _M.get_tool(TOOL) is None:
        _M.use_tool_id(TOOL, "ftsim")
        _M.register_callback(TOOL, _M.events.LINE, _on_line)


@contextlib.contextmanager
def watching(cb):
    """cb(code, line) before every executed line of featuretools (any thread). It may raise."""
    install()
    _State.cb = cb
    _M.restart_events()
    _M.set_events(TOOL, _M.events.LINE)
    try:
        yield
    finally:
        _M.set_events(TOOL, 0)
        _State.cb = None


class Counter:
    def __init__(self):
        self.n = 0
        self.where = None

    def __call__(self, code, line):
        self.n += 1


@contextlib.contextmanager
def interrupt_at(n, exc):
    """Raise exc in the running code just before the n-th executed line of featuretools."""
    c = Counter()

    def cb(code, line):
        c.n += 1
        if c.n == n:
            c.where = "%s:%s" % (os.path.basename(code.co_filename), code.co_name)
            _M.set_events(TOOL, 0)
            raise exc() if isinstance(exc, type) else exc
    with watching(cb):
        yield c


def count_lines(fn):
    c = Counter()
    with watching(c):
        r = fn()
    return c.n, r
