"""Deterministic threads: real Python threads of which exactly one runs at any time. Control changes
hands only at scheduling points (every line of featuretools executed, or every call into the simulated
cluster or object store), as a schedule in the plan says: [[point, choice], ...]. Locks created by
featuretools itself are replaced so that blocking on them is a scheduling point too."""
import sys
import threading

from sim import lines

_RealLock = threading.Lock
_RealRLock = threading.RLock
BATON = None


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    pass


class SimLock:
    """Replacement for a lock created by featuretools."""

    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        b = BATON
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if b is None or not b.managed():
                raise Deadlock("lock held by a thread that cannot run")
            if not b.block(self):
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock("every thread is waiting for a lock")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if BATON is not None:
                BATON.unblock(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")


def install():
    """Before featuretools is imported."""
    def from_ft():
        return sys._getframe(2).f_globals.get("__name__", "").startswith("featuretools")

    def lock():
        return SimLock() if from_ft() else _RealLock()

    def rlock(*a):
        return SimLock(True) if from_ft() else _RealRLock()
    threading.Lock, threading.RLock = lock, rlock


class Thread:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.waiting = None
        self.result = None
        self.exc = None


class Baton:
    def __init__(self, switches, start=0, places=None):
        # places: {(file, function, line): {n-th arrival: choice}} for runs by line
        self.places = places or {}
        self.arrivals = {}
        self.switches = {int(p): int(c) for p, c in switches}
        self.threads = []
        self.cur = None
        self.points = 0
        self.trace = []
        self.finished = threading.Semaphore(0)
        self.first = start
        self.ids = {}
        self.abort = False

    def spawn(self, name, fn):
        self.threads.append(Thread(name, fn))

    def managed(self):
        return threading.get_ident() in self.ids

    def _runnable(self, besides=None):
        return [t for t in self.threads if not t.done and t.waiting is None and t is not besides]

    def _switch(self, t):
        me = self.cur
        self.cur = t
        self.trace.append((self.points, self.threads.index(t)))
        t.go.release()
        if me is not None and not me.done:
            me.go.acquire()

    def point(self, *what):
        """A scheduling point of the running thread."""
        if not self.ids or threading.get_ident() not in self.ids:
            return
        self.points += 1
        c = self.switches.get(self.points)
        if what and what[0] in self.places:
            n = self.arrivals[what[0]] = self.arrivals.get(what[0], 0) + 1
            c = self.places[what[0]].get(n, c)
        if c is None:
            return
        r = self._runnable(besides=self.cur)
        if r:
            self._switch(r[c % len(r)])

    def block(self, lock):
        """The running thread cannot continue until the lock is free. False: no one else can either."""
        me = self.cur
        me.waiting = lock
        r = self._runnable()
        if not r:
            me.waiting = None
            return False
        self._switch(r[self.points % len(r)])
        return True

    def unblock(self, lock):
        for t in self.threads:
            if t.waiting is lock:
                t.waiting = None

    def _main(self, t):
        t.go.acquire()
        self.ids[threading.get_ident()] = t
        try:
            t.result = t.fn()
        except BaseException as e:
            t.exc = e
        t.done = True
        del self.ids[threading.get_ident()]
        r = self._runnable()
        if r:
            self._switch(r[self.points % len(r)])
        else:
            self.finished.release()

    def run(self, by_line=False):
        global BATON
        BATON = self
        ths = [threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.threads]
        for th in ths:
            th.start()
        try:
            self.cur = self.threads[self.first % len(self.threads)]
            if by_line:
                def cb(code, line):
                    if code.co_name != "<module>":
                        self.point((code.co_filename, code.co_name, line))
                with lines.watching(cb):
                    self.cur.go.release()
                    self.finished.acquire()
            else:
                self.cur.go.release()
                self.finished.acquire()
        finally:
            BATON = None
        stuck = [t.name for t in self.threads if not t.done]
        if stuck:
            raise Deadlock("threads %s can never run again" % stuck)
