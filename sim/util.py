"""Small helpers shared by runner, lanes and checks (no featuretools import)."""
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FTSIM_REPO", "/repo")


def rng_for(seed, prop, i):
    return random.Random("ftsim:%s:%s:%s" % (seed, prop, i))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Violation(Exception):
    """A property violation. cls: stable class name used for minimisation; detail: text."""

    def __init__(self, cls, detail, sig=None):
        super().__init__("%s: %s" % (cls, detail))
        self.cls = cls
        self.detail = str(detail)[:4000]
        self.sig = sig


class Invalid(Exception):
    """The (shrunk) plan no longer describes a meaningful run."""


def wchance(rng, p):
    return rng.random() < p


def read_all(fd):
    out = b""
    while True:
        b = os.read(fd, 1 << 16)
        if not b:
            return out
        out += b


def in_process(fn, timeout=120):
    """Run fn in a forked process. Returns (kind, value):
    ("ok", value) | ("exc", (type name, message, traceback, mro names)) | ("crash", info) | ("died", status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            global _CRASH_FD
            _CRASH_FD = w
            try:
                msg = ("ok", fn())
            except BaseException as e:
                msg = ("exc", exc_info(e))
            try:
                data = pickle.dumps(msg)
            except Exception as e:
                data = pickle.dumps(("exc", ("HarnessPickle", repr(e), "", [])))
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    try:
        data = read_all(r)
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        return ("died", status)
    return pickle.loads(data)


_CRASH_FD = None


def crash_note(info):
    """Called (in the forked process) just before a simulated crash: hand info to the parent."""
    if _CRASH_FD is not None:
        os.write(_CRASH_FD, pickle.dumps(("crash", info)))


def exc_info(e):
    return (type(e).__name__, str(e)[:600],
            "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
            [c.__name__ for c in type(e).__mro__])


def repo_location(tb_text):
    """Deepest frame of the repository in a formatted traceback: 'file:function' (no line numbers)."""
    loc = None
    for line in tb_text.splitlines():
        line = line.strip()
        if line.startswith("File ") and REPO + "/featuretools" in line:
            try:
                f = line.split('"')[1].replace(REPO + "/", "")
                fn = line.split(" in ")[-1]
                loc = "%s:%s" % (f, fn)
            except Exception:
                pass
    return loc


def silence():
    """Send stdout and stderr of this process to /dev/null."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    os.close(dn)
