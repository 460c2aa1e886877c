"""Python side of the clock and disk seam (libftsim.so, loaded with LD_PRELOAD)."""
import ctypes
import errno as _errno
import os

_lib = ctypes.CDLL(None)
try:
    _lib.ftsim_present
    PRESENT = True
except AttributeError:
    PRESENT = False

NS = 10 ** 9
OPS = {1: "openw", 2: "openr", 3: "write", 4: "read", 5: "close", 6: "fsync", 7: "rename",
       8: "mkdir", 9: "unlink", 10: "rmdir", 11: "trunc", 12: "link"}
MUTATING = {"openw", "write", "fsync", "rename", "mkdir", "unlink", "rmdir", "trunc", "link", "close"}
ACT_EXIT = 1 << 40
_CB = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long)

if PRESENT:
    _lib.ftsim_clock_set.argtypes = [ctypes.c_int64]
    _lib.ftsim_clock_get.restype = ctypes.c_int64
    _lib.ftsim_clock_tick.argtypes = [ctypes.c_int64]
    _lib.ftsim_clock_reads.restype = ctypes.c_int64
    _lib.ftsim_clock_jump.argtypes = [ctypes.c_int64, ctypes.c_int64]
    _lib.ftsim_disk_root.argtypes = [ctypes.c_char_p]
    _lib.ftsim_disk_cb.argtypes = [_CB]


class Clock:
    """The simulated wall clock. Nothing in the process sees another one once on."""

    @staticmethod
    def start(epoch):
        _lib.ftsim_clock_reads_reset()
        _lib.ftsim_clock_tick(0)
        _lib.ftsim_clock_set(int(epoch * NS))
        _lib.ftsim_clock_on(1)

    @staticmethod
    def stop():
        _lib.ftsim_clock_on(0)

    @staticmethod
    def set(epoch):
        _lib.ftsim_clock_set(int(epoch * NS))

    @staticmethod
    def now():
        return _lib.ftsim_clock_get() / NS

    @staticmethod
    def advance(seconds):
        _lib.ftsim_clock_set(_lib.ftsim_clock_get() + int(seconds * NS))

    @staticmethod
    def tick(seconds):
        _lib.ftsim_clock_tick(int(seconds * NS))

    @staticmethod
    def reads():
        return _lib.ftsim_clock_reads()

    @staticmethod
    def jump_at(read_no, seconds):
        _lib.ftsim_clock_jump(int(read_no), int(seconds * NS))


class Disk:
    """Every file operation below `root` passes through `decide`.

    faults: list of {"at": k, "kind": "enospc|eio|short|torn|crash", "ops": optional}
    `at` counts mutating operations (reads are counted separately, kind "eio_read"/"short_read").
    """

    def __init__(self, root, faults=(), stats=None, yielder=None, log=None, who=None):
        self.root = os.path.abspath(root)
        self.faults = list(faults)
        self.n = 0
        self.nr = 0
        self.stats = stats if stats is not None else {}
        self.log = log if log is not None else []
        self.yielder = yielder
        self.fired = []
        self.sticky = None
        self._cb = _CB(self._decide)
        self.error = None

    def __enter__(self):
        _lib.ftsim_disk_root(self.root.encode())
        _lib.ftsim_disk_cb(self._cb)
        _lib.ftsim_disk_on(1)
        return self

    def __exit__(self, *a):
        _lib.ftsim_disk_on(0)
        _lib.ftsim_disk_cb(_CB(0))

    def _fire(self, kind, op, path):
        self.stats["fault." + kind] = self.stats.get("fault." + kind, 0) + 1
        self.fired.append({"kind": kind, "op": op, "path": os.path.relpath(path, self.root), "n": self.n})

    def _decide(self, op, path, path2, size):
        try:
            return self._decide2(OPS.get(op, str(op)), path.decode(), path2.decode(), size)
        except BaseException as e:  # a bug in the simulator: remembered and reported as such
            self.error = repr(e)
            return 0

    def _decide2(self, op, path, path2, size):
        if op == "close":
            return 0
        if self.yielder is not None:
            self.yielder(op, path)
        if op in ("read", "openr"):
            self.nr += 1
            for f in self.faults:
                if f.get("at_read") == self.nr:
                    if f["kind"] == "eio_read":
                        self._fire("eio_read", op, path)
                        return -_errno.EIO
                    if f["kind"] == "short_read" and op == "read" and size > 1:
                        self._fire("short_read", op, path)
                        return max(1, size // 3)
            return 0
        self.n += 1
        self.log.append((op, os.path.relpath(path, self.root), size if op == "write" else 0))
        if self.sticky is not None and op in ("openw", "write", "mkdir"):
            self._fire("enospc", op, path)
            return -self.sticky
        for f in self.faults:
            if f.get("at") != self.n:
                continue
            k = f["kind"]
            if k == "crash":
                self._fire("crash", op, path)
                self.on_crash()
                frac = f.get("frac", 0)
                if op == "write":
                    return ACT_EXIT + int(size * frac)
                return ACT_EXIT
            if k == "enospc":
                self._fire(k, op, path)
                if f.get("sticky"):
                    self.sticky = _errno.ENOSPC
                return -_errno.ENOSPC
            if k == "eio":
                self._fire(k, op, path)
                return -_errno.EIO
            if k == "short" and op == "write" and size > 1:
                self._fire(k, op, path)
                return max(1, int(size * f.get("frac", 0.5)))
        return 0

    def on_crash(self):
        pass


def tree(root):
    """{relative path: bytes} of everything below root."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
        rel = os.path.relpath(d, root)
        if rel != ".":
            out[rel + "/"] = None
    return out
