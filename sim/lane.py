"""A lane: one long-lived process that has imported the real featuretools behind the seams and
forks one child per simulated run, so that a run starts from a known state and cannot leak."""
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from sim import util


def _prepare(check):
    sys.path.insert(0, util.REPO)
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    if getattr(check, "CLUSTER", False):
        from sim import cluster
        cluster.install()
    if getattr(check, "PRE_IMPORT", None):
        check.PRE_IMPORT()
    if not getattr(check, "NO_FT", False):
        import featuretools  # noqa
        where = os.path.realpath(featuretools.__file__)
        if not where.startswith(os.path.realpath(util.REPO) + os.sep):
            raise RuntimeError("featuretools imported from %s, not %s" % (where, util.REPO))
        import logging
        logging.getLogger("featuretools").handlers[:] = []
        logging.getLogger("featuretools").addHandler(logging.NullHandler())
    if getattr(check, "WARMUP", None):
        check.WARMUP()
    import gc
    gc.collect()
    gc.freeze()


def run_once(check, plan, debug=False):
    """Executes one plan in this process; returns a JSON-able result."""
    import numpy as np
    import tempfile
    random.seed(0)
    np.random.seed(0)
    names = iter(range(10 ** 9))
    tempfile._name_sequence = iter("s%06d" % k for k in names)
    import warnings
    warnings.simplefilter("ignore")
    res = {"status": "ok", "violation": None, "stats": {}, "sig": [], "nontrivial": False,
           "simtime": 0.0, "digest": None, "sample": None}
    ctx = Ctx()
    try:
        check.run(plan, ctx)
    except util.Violation as v:
        res["violation"] = {"class": v.cls, "detail": v.detail, "sig": v.sig}
    except util.Invalid as e:
        res["status"] = "invalid"
        res["error"] = str(e)
    except BaseException as e:
        where = util.repo_location(traceback.format_exc())
        if where:
            # the real code raised where no fault was injected: a violation, not a harness problem
            res["violation"] = {"class": "raises", "detail": "%s in %s\n%s" % (type(e).__name__, where, traceback.format_exc()[-3000:]),
                                "sig": None}
        else:
            res["status"] = "harness_error"
            res["error"] = traceback.format_exc()[-4000:]
    finally:
        ctx.cleanup()
    res["stats"] = ctx.stats
    res["sig"] = sorted(ctx.sigs)
    res["nontrivial"] = bool(ctx.nontrivial)
    res["simtime"] = ctx.simtime
    res["digest"] = util.digest([ctx.events, res["violation"] and res["violation"]["class"]])
    res["sample"] = ctx.sample
    if debug:
        res["events"] = ctx.events
    return res


class Ctx:
    """Per-run recorder handed to check.run."""

    def __init__(self):
        self.stats = {}
        self.events = []
        self.sigs = set()
        self.nontrivial = False
        self.simtime = 0.0
        self.sample = None
        self._dirs = []

    def hit(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def event(self, *a):
        if len(self.events) < 5000:
            self.events.append(a)

    def scratch(self):
        """A private directory for this run, removed afterwards."""
        base = os.environ.get("FTSIM_SCRATCH", "/tmp")
        k = 0
        while True:
            d = os.path.join(base, "ftsim-%d-%d" % (os.getpid(), k))
            try:
                os.mkdir(d)
                break
            except FileExistsError:
                k += 1
        self._dirs.append(d)
        return d

    def cleanup(self):
        import shutil
        for d in self._dirs:
            if os.path.basename(d).startswith("ftsim-"):
                shutil.rmtree(d, ignore_errors=True)


def fork_run(check, i, seed, plan, timeout, debug):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            if not debug:
                util.silence()
            if plan is None:
                plan = check.gen(util.rng_for(seed, check.PROP, i), i)
                plan["_i"] = i
                plan = json.loads(json.dumps(plan))
            out = run_once(check, plan, debug)
            out["plan"] = plan if (out["violation"] or out["status"] != "ok" or debug) else None
            data = json.dumps(out, default=str).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            try:
                os.write(w, json.dumps({"status": "harness_error", "error": traceback.format_exc()[-4000:]}).encode())
            except BaseException:
                pass
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)   # stray grandchildren of the run
    except OSError:
        pass
    if getattr(check, "SCRATCH_SWEEP", True):
        import glob
        import shutil
        for d in glob.glob(os.path.join(os.environ.get("FTSIM_SCRATCH", "/tmp"), "ftsim-%d-*" % pid)):
            shutil.rmtree(d, ignore_errors=True)
    if timed_out:
        return {"status": "timeout", "error": "no end after %ss" % timeout}
    if not buf:
        return {"status": "died", "error": "run process ended with status %s" % status}
    return json.loads(buf)


def main():
    name = sys.argv[1]
    real_out = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(real_out, "w", buffering=1)
    try:
        check = importlib.import_module("sim.checks." + name.lower())
        _prepare(check)
    except BaseException:
        out.write(json.dumps({"status": "import_error", "error": traceback.format_exc()[-4000:]}) + "\n")
        return
    out.write(json.dumps({"status": "ready"}) + "\n")
    for line in sys.stdin:
        cmd = json.loads(line)
        res = fork_run(check, cmd["i"], cmd["seed"], cmd.get("plan"), cmd.get("timeout", 60), cmd.get("debug", False))
        res["i"] = cmd["i"]
        out.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
