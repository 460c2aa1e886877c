"""P02: a failed distributed run raises, releases what it owns and can be retried."""
from sim import calls, util
from sim import model as M
from sim import workload as W
from sim.util import Violation

PROP = "P02"
LEVEL = "fault_enumeration"
TECHNIQUE = "simulated dask cluster with failures injected at every client call, task, worker and callback; ownership and retry checked after each"
NOTE = ("Whole distributed calculations run on a simulated cluster while one or two failures are injected (any client or cluster call, any task, "
        "worker deaths beyond the retry limit, too little memory, a raising callback); the exception, the state of clients and clusters, the "
        "caller's arguments and the result of repeating the call are checked. Trusts the cluster stand-in.")
CLUSTER = True
RUNS = {"quick": 640, "thorough": 40000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated calculation run on a simulated cluster with injected failures and then repeated without them; "
        "distinct_nontrivial counts distinct (failing operation, its ordinal, exception, ownership, chunk count) signatures of runs in "
        "which a failure was injected")
MEASURE = "distinct (failing operation, ordinal, exception, ownership)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "cloudpickle"]
STUB = ["dask.distributed (Client, LocalCluster, Future, as_completed, wait): sim/cluster.py", "wall clock: build/libftsim.so"]
ASSUMPTIONS = ["the simulated cluster honours the documented behaviour of dask.distributed 2024.4.2"]
PROBES = ["failed", "retried_same_cluster", "callback_raised", "task_failed", "killed_worker", "memory", "own_cluster_failed",
          "failed_while_tasks_open", "undisturbed", "two_faults", "interrupted", "via_dfs"]
SHRINK = ["cl.faults", "case.ct.rows", "case.specs", "case.ds.entities.*.rows"]
OPS = ["cluster", "connect", "scheduler_info", "list_datasets", "get_dataset", "scatter", "scatter", "publish_dataset", "replicate",
       "who_has", "map", "gather", "gather", "wait", "close"]
EXC = ["OSError", "TimeoutError", "CommClosedError", "ValueError", "RuntimeError", "KeyboardInterrupt", "MemoryError", "KeyError"]
# a call that only feeds a warning, or whose failure has a harmless way round, may also be survived
OPTIONAL = {"who_has", "close", "cluster_close", "scheduler_info"}


class CallbackFailed(Exception):
    pass


def gen(rng, i):
    case = calls.gen_case(rng, windows=0.15, approximate=0.15, single=0.2, maxrows=10, nspecs=(1, 3))
    cl = {"seed": rng.randrange(10 ** 6), "workers": rng.randint(1, 4), "faults": [], "mode": "proc", "replicate": 1.0}
    plan = {"case": case, "cl": cl, "chunk": rng.choice([None, 1, 2, 3, 0.5]), "supplied": rng.random() < 0.45,
            "n_jobs": rng.choice([2, 3, -1]), "cb": None, "kwargs": []}
    kind = rng.choice(["api", "api", "api", "api", "err", "err", "kill", "cb", "mem", "none"])
    n = 2 if rng.random() < 0.3 else 1
    for _ in range(n):
        if kind == "api":
            op = rng.choice(OPS if not plan["supplied"] else OPS[1:])
            cl["faults"].append({"k": "api", "op": op, "n": rng.choice([1, 1, 1, 2, 2, 3]) if op in ("scatter", "gather", "wait", "scheduler_info") else 1,
                                 "exc": rng.choice(EXC)})
        elif kind == "err":
            cl["faults"].append({"k": "err", "n": rng.randint(1, 5), "exc": rng.choice(EXC[:5] + EXC[6:])})
        elif kind == "kill":
            cl["workers"] = plan["n_jobs"] = 6
            cl["faults"].append({"k": "kill", "n": rng.randint(1, 4)})
        elif kind == "cb":
            plan["cb"] = rng.randint(1, 5)
        elif kind == "mem":
            cl["mem"] = 10
        if kind != "none":
            kind = rng.choice(["api", "err", "cb", "close"])
            if kind == "close":
                cl["faults"].append({"k": "api", "op": "close", "n": 1, "exc": rng.choice(EXC[:4])})
                break
    for k in ("diagnostics_port", "memory_limit", "processes"):
        if rng.random() < 0.35:
            plan["kwargs"].append(k)
    plan["extra_kwargs"] = rng.random() < 0.5
    return plan


def state_of(sim, plan, ctx, when):
    """Ownership after the call returned or raised."""
    for c in sim.clients:
        if c.closed == 0:
            raise Violation("client-leaked", "%s: a client opened by the call is still open" % when)
        if c.used_after_close:
            raise Violation("client-used-after-close", "%s: the client was used after it had been closed" % when)
    for cl in sim.clusters:
        if cl.owned and not cl.closed:
            raise Violation("cluster-leaked", "%s: the cluster the call started is still running" % when)
        if not cl.owned and cl.closed:
            raise Violation("cluster-closed", "%s: the caller's cluster was closed" % when)


def snapshot(kw):
    out = {}
    for k, v in kw.items():
        if hasattr(v, "copy") and hasattr(v, "columns"):
            out[k] = v.copy()
        elif isinstance(v, (dict, list)):
            out[k] = v.copy()
        else:
            out[k] = v
    return out


def same_args(kw, snap, when):
    if set(kw) != set(snap):
        raise Violation("arguments-changed", "%s: keyword arguments changed" % when)
    for k, v in snap.items():
        w = kw[k]
        if hasattr(v, "columns"):
            ok = list(v.columns) == list(w.columns) and v.equals(w) and list(v.dtypes) == list(w.dtypes)
        elif isinstance(v, dict):
            ok = list(v) == list(w) and all(w[x] is v[x] for x in v)
        elif isinstance(v, list):
            ok = v == w
        else:
            ok = v is w
        if not ok:
            raise Violation("arguments-changed", "%s: argument %s was %r and is now %r" % (when, k, v, w))


def run(plan, ctx):
    import featuretools as ft
    from sim import cluster
    from sim.seams import Clock
    case = plan["case"]
    Clock.start(1600000000)
    es0, fs0, names = calls.build(case)
    serial, e = calls.attempt(lambda: ft.calculate_feature_matrix(fs0, es0, **calls.cutoff_args(case)))
    if e is not None:
        if not calls.rows_of(case):
            return
        raise Violation("serial-raises", "serial calculation fails: " + calls.describe(e))
    es, fs, _ = calls.build(case)
    sim = cluster.start(plan["cl"], ctx)
    kw = calls.cutoff_args(case)
    if plan["chunk"]:
        kw["chunk_size"] = plan["chunk"]
    dk = {}
    for k in plan["kwargs"]:
        dk[k] = {"diagnostics_port": 8787, "memory_limit": 4 << 30, "processes": True}[k]
    if plan["supplied"]:
        armed, sim.faults = sim.faults, []
        dk["cluster"] = cluster.SimCluster(n_workers=plan["cl"]["workers"], owned=False)
        sim.faults = armed
        sim.counts.clear()
        kw["n_jobs"] = 1
        if not plan["extra_kwargs"]:
            dk = {"cluster": dk["cluster"]}
    else:
        kw["n_jobs"] = plan["n_jobs"]
    if dk or plan["supplied"]:
        kw["dask_kwargs"] = dk
    state = {"armed": True, "n": 0, "raised": None}

    class CB:
        """(the copy sent to workers never raises)"""

        def __reduce__(self):
            return (len, ("",))

        def __call__(self, *a):
            state["n"] += 1
            if state["armed"] and plan["cb"] == state["n"]:
                state["raised"] = CallbackFailed("callback %d" % state["n"])
                raise state["raised"]
    if plan["cb"]:
        kw["progress_callback"] = CB()
    flist = list(fs)
    args = list(fs)
    snap = snapshot(kw)
    frames = {e.id: e.df.copy() for e in es.entities}

    def call():
        return calls.matrix(case, ctx, args, es, **kw)

    def attempt():
        try:
            return call(), None
        except (Exception, KeyboardInterrupt) as e:
            return None, e
    fm, e = attempt()
    fired = list(sim.fired)
    what = [(f["k"], f.get("op") or f.get("at"), f.get("n"), f.get("exc")) for f in fired]
    kill = any(f["k"] == "kill" for f in fired)
    mem = bool(plan["cl"].get("mem"))
    if kill:
        ctx.hit("probe.killed_worker")
    ctx.event(what, type(e).__name__, len(sim.completion))
    when = "after %s" % (what + (["callback"] if state["raised"] else []) + (["memory"] if mem else []) or "a run without failures")
    expected = [f["exc"] for f in fired if f["k"] in ("api", "err")]
    must = [f["exc"] for f in fired if f["k"] == "err" or f["k"] == "api" and f["op"] not in OPTIONAL
            and not (f["op"] == "publish_dataset" and f["exc"] in ("KeyError", "ValueError"))]
    # a failing task only fails the call once it is gathered, which an earlier failure may preclude
    if state["raised"]:
        expected.append("CallbackFailed")
        must.append("CallbackFailed")
        ctx.hit("probe.callback_raised")
    if mem:
        expected.append("ValueError")
        if len(sim.clients):
            must.append("ValueError")
            ctx.hit("probe.memory")
    if kill:
        expected.append("KilledWorker")
        must.append("KilledWorker")
    if e is not None and not isinstance(e, Exception):
        ctx.hit("probe.interrupted")
    allowed = set()
    for x in expected:
        allowed.add(x)
        if x == "CancelledError":
            allowed |= {"FutureCancelledError"}
    if e is None:
        if must:
            raise Violation("failure-swallowed", "%s the call returned instead of raising %s" % (when, must))
        calls.check_frame(case, fm, names, values=False, what="matrix " + when)
        calls.same(fm, serial, "partial-matrix", "parallel versus serial " + when)
        if not expected:
            ctx.hit("probe.undisturbed")
        if not mem and any(c.open_tasks_at_close for c in sim.clients):
            raise Violation("closed-early", "%s the client was closed while tasks were unfinished" % when)
    else:
        if type(e).__name__ not in allowed:
            raise Violation("other-exception", "%s the call raised %s" % (when, calls.describe(e)))
        if state["raised"] is not None and isinstance(e, CallbackFailed) and e is not state["raised"]:
            raise Violation("other-exception", "%s another exception object came out" % when)
        ctx.hit("probe.failed")
        if any(f["k"] == "err" for f in fired):
            ctx.hit("probe.task_failed")
        if any(c.owned for c in sim.clusters):
            ctx.hit("probe.own_cluster_failed")
        if any(c.open_tasks_at_close for c in sim.clients):
            ctx.hit("probe.failed_while_tasks_open")
        if len(expected) > 1:
            ctx.hit("probe.two_faults")
    state_of(sim, plan, ctx, when)
    same_args(kw, snap, when)
    if args != flist or any(a is not b for a, b in zip(args, flist)):
        raise Violation("arguments-changed", "%s: the list of features changed" % when)
    for ent in es.entities:
        if not ent.df.equals(frames[ent.id]) or list(ent.df.columns) != list(frames[ent.id].columns):
            raise Violation("entityset-changed", "%s: entity %s changed" % (when, ent.id))
    ctx.nontrivial = bool(expected)
    ctx.sigs.add(util.digest([what, bool(state["raised"]), mem, plan["supplied"], type(e).__name__]))
    ctx.sample = {"failures": [list(map(str, w)) for w in what], "raised": type(e).__name__ if e is not None else None,
                  "own_cluster": not plan["supplied"]}
    # the fault is over: the same call again
    sim.faults = []
    sim.conf["mem"] = None
    for c in sim.clusters:
        c.mem = 8 << 30
        if c.owned is False:
            # tasks of the failed call are cancelled when their client goes
            c.queue = []
            ctx.hit("probe.retried_same_cluster")
    state["armed"] = False
    del sim.clients[:]
    sim.clusters[:] = [c for c in sim.clusters if not c.owned]
    fm, e = attempt()
    if e is not None:
        raise Violation("retry-fails", "%s repeating the call fails: %s" % (when, calls.describe(e)))
    calls.check_frame(case, fm, names, values=False, what="matrix of the repeated call " + when)
    calls.same(fm, serial, "retry-differs", "repeated call versus serial " + when)
    state_of(sim, plan, ctx, "after repeating, " + when)
    same_args(kw, snap, "after repeating, " + when)
