"""P15: progress reports are monotone and reach exactly 100 percent."""
from sim import calls, util
from sim import workload as W
from sim.util import Violation

PROP = "P15"
LEVEL = "exploration"
TECHNIQUE = "simulated clock and dask cluster with seeded schedules and worker faults; every progress_callback invocation checked as it happens"
NOTE = ("Calculations run serially and on a simulated cluster under a ticking and jumping clock; every progress report is checked as it arrives, "
        "and the matrix is compared with the one calculated without reports. Trusts the cluster stand-in.")
CLUSTER = True
RUNS = {"quick": 640, "thorough": 40000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated calculation with progress reports (serial, or on a simulated cluster with a seeded schedule and faults) and one "
        "without; distinct_nontrivial counts distinct (number of reports, chunks, completion order, clock plan, mode) signatures of runs with "
        "at least three reports")
MEASURE = "distinct (reports, completion order, batch sizes, clock plan)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "tqdm"]
STUB = ["dask.distributed: sim/cluster.py", "wall clock: build/libftsim.so"]
ASSUMPTIONS = ["elapsed times are compared within one call, when the clock was not set back"]
PROBES = ["serial", "parallel", "clock_back", "clock_forward", "many_reports", "worker_fault", "callback_raises", "verbose", "approx", "window",
          "single_cutoff", "dask_entityset", "no_output_wanted", "via_dfs"]
SHRINK = ["cl.faults", "jumps", "case.ct.rows", "case.specs", "case.ds.entities.*.rows"]


class CallbackFailed(Exception):
    pass


def gen(rng, i):
    dask = rng.random() < 0.04
    if dask:
        case = calls.gen_case(rng, windows=0.0, single=0.3, maxrows=4, nspecs=(1, 2),
                              dskw=dict(numeric=False, sizes=(3, 8), sec=False), featkw=calls.DASK_FEATURES)
    else:
        case = calls.gen_case(rng, windows=0.2, approximate=0.25, single=0.2, maxrows=14)
    cl = {"seed": rng.randrange(10 ** 6), "workers": rng.randint(1, 4), "faults": [], "mode": "proc", "replicate": 1.0}
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(["die", "dup", "slow"])
        if k == "die":
            cl["faults"].append({"k": "die", "n": rng.randint(1, 6), "at": rng.choice(["start", "mid", "end"]), "line": rng.randint(1, 900)})
        elif k == "dup":
            cl["faults"].append({"k": "dup", "n": rng.randint(1, 6)})
        else:
            cl["faults"].append({"k": "slow", "w": rng.randrange(4), "factor": 30})
    cl["workers"] = max(cl["workers"], len(cl["faults"]) + 1)
    return {"case": case, "cl": cl, "dask": dask, "chunk": rng.choice([None, None, 1, 2, 3, 0.4]), "n_jobs": 1 if dask else rng.choice([1, 1, 2, 3]),
            "tick": rng.choice([0, 0.01, 3]), "jumps": [[rng.randint(1, 60), rng.choice([-3600, -7, 5000, 86400])] for _ in range(rng.choice([0, 0, 0, 1, 2]))],
            "verbose": rng.random() < 0.3, "raise_at": rng.randint(1, 6) if rng.random() < 0.15 else None}


def run(plan, ctx):
    from sim import cluster
    from sim.seams import Clock
    case = plan["case"]
    Clock.start(1600000000)

    def build():
        if plan["dask"]:
            es = W.build_es(case["ds"], npartitions={e["id"]: 2 for e in case["ds"]["entities"]})
            fs = W.build_features(case["specs"], es)
            return es, fs
        return calls.build(case)[:2]
    es, fs = build()
    parallel = plan["n_jobs"] > 1

    def call(es, fs, **more):
        kw = calls.cutoff_args(case)
        if plan["chunk"]:
            kw["chunk_size"] = plan["chunk"]
        if parallel:
            kw["n_jobs"] = max(plan["n_jobs"], plan["cl"]["workers"])
        kw.update(more)
        return calls.matrix(case, ctx, fs, es, **kw)
    conf = dict(plan["cl"], faults=[])
    cluster.start(conf)
    base, e = calls.attempt(lambda: call(es, fs))
    if e is not None:
        return                                   # (other properties judge calls that raise)
    es, fs = build()
    sim = cluster.start(plan["cl"], ctx)
    reports = []
    back = any(j[1] < 0 for j in plan["jumps"])
    raised = []

    class CB:
        def __reduce__(self):
            return (len, ("",))

        def __call__(self, update, percent, elapsed):
            if raised:
                raise Violation("called-after-raising", "the callback was called again after it had raised")
            k = len(reports)
            update, percent, elapsed = float(update), float(percent), float(elapsed)
            if not update >= -1e-9:
                raise Violation("negative-increment", "report %d has increment %r" % (k, update))
            if not percent <= 100 + 1e-6:
                raise Violation("above-100", "report %d says %r percent" % (k, percent))
            if reports and percent < reports[-1][1] - 1e-9:
                raise Violation("percentage-decreases", "report %d says %r percent after %r" % (k, percent, reports[-1][1]))
            s = sum(r[0] for r in reports) + update
            if abs(s - percent) > 1e-6:
                raise Violation("increments-do-not-add-up", "after report %d the increments sum to %r, percentage %r" % (k, s, percent))
            if not back:
                if elapsed < -1e-9 or reports and elapsed < reports[-1][2] - 1e-6:
                    raise Violation("time-goes-back", "report %d at %r s after one at %r s" % (k, elapsed, reports[-1][2] if reports else 0))
            reports.append((update, percent, elapsed))
            if plan["raise_at"] == len(reports):
                raised.append(CallbackFailed("report %d" % len(reports)))
                raise raised[0]
    Clock.start(1600000000)
    Clock.tick(plan["tick"])
    for n, s in plan["jumps"][:1]:
        Clock.jump_at(n, s)
    fm, e = calls.attempt(lambda: call(es, fs, progress_callback=CB(), verbose=plan["verbose"]))
    Clock.tick(0)
    order = list(sim.completion)
    ctx.event([tuple(round(x, 6) for x in r[:2]) for r in reports], order)
    for name, cond in [("serial", not parallel), ("parallel", parallel), ("clock_back", back), ("clock_forward", any(j[1] > 0 for j in plan["jumps"])),
                       ("many_reports", len(reports) > 8), ("worker_fault", any(f["k"] in ("die", "dup") for f in sim.fired)),
                       ("callback_raises", bool(raised)), ("verbose", plan["verbose"]), ("no_output_wanted", not plan["verbose"]),
                       ("approx", bool(case["approx"])), ("window", bool(case["window"])),
                       ("single_cutoff", "single" in case), ("dask_entityset", plan["dask"])]:
        if cond:
            ctx.hit("probe." + name)
    if plan["jumps"]:
        ctx.hit("fault.clock_jump")
    if raised:
        ctx.hit("fault.callback_raises")
        if e is not raised[0]:
            raise Violation("callback-exception-lost", "the callback raised at report %d and the call %s" % (
                plan["raise_at"], "returned" if e is None else "raised " + calls.describe(e)))
        return
    if isinstance(e, Violation):
        raise e
    if e is not None:
        raise Violation("raises-with-progress", "the call fails when progress is requested: " + calls.describe(e))
    if not reports:
        raise Violation("no-reports", "no progress was reported")
    if abs(reports[-1][1] - 100) > 1e-6:
        raise Violation("not-100", "the last report says %r percent" % reports[-1][1])
    total = sum(r[0] for r in reports)
    if abs(total - 100) > 1e-6:
        raise Violation("sum-not-100", "the increments sum to %r" % total)
    if plan["dask"]:
        base, fm = base.compute(), fm.compute()
    calls.same(fm, base, "matrix-differs", "with versus without progress reports")
    ctx.nontrivial = len(reports) >= 3
    ctx.sigs.add(util.digest([len(reports), order, sim.batches, plan["tick"], plan["jumps"], plan["verbose"]]))
    ctx.sample = {"reports": len(reports), "parallel": parallel, "chunks": len(order), "clock": plan["jumps"]}
