"""P01: matrices computed on a simulated cluster equal serial ones under any schedule and fault."""
from sim import calls, util
from sim import workload as W
from sim.util import Violation

PROP = "P01"
LEVEL = "exploration"
TECHNIQUE = "simulated dask cluster with seeded schedules and worker faults, against serial execution and a reference model"
NOTE = ("Whole calculations run on a simulated cluster (workers slow, dying at any line, replaced, tasks re-run, completions reordered and "
        "batched); the result is compared with the serial one and with an independent model. Trusts the cluster stand-in.")
CLUSTER = True
RUNS = {"quick": 640, "thorough": 40000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated entityset, feature list and cutoff table computed serially, on a simulated cluster with a seeded "
        "schedule and worker faults, and by the reference model; distinct_nontrivial counts distinct (chunks, workers, completion "
        "order, batch sizes, faults) signatures among runs with at least two chunks")
MEASURE = "distinct (completion order of chunks, batch sizes, workers, fired faults)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "cloudpickle"]
STUB = ["dask.distributed (Client, LocalCluster, Future, as_completed, wait): sim/cluster.py", "wall clock: build/libftsim.so"]
ASSUMPTIONS = ["the simulated cluster honours the documented behaviour of dask.distributed 2024.4.2",
               "floating point sums are compared with a relative tolerance of 1e-7"]
PROBES = ["out_of_order", "many_chunks", "batch_gt1", "approx", "window", "fewer_chunks_than_workers", "single_cutoff",
          "worker_died_mid_chunk", "task_rerun", "supplied_cluster", "shared_memory_workers", "via_dfs"]
SHRINK = ["cl.faults", "case.ct.rows", "case.specs", "case.ds.entities.*.rows"]


def gen(rng, i):
    case = calls.gen_case(rng, windows=0.25, approximate=0.3, single=0.15, maxrows=16)
    cl = {"seed": rng.randrange(10 ** 6), "workers": rng.randint(1, 5), "faults": [],
          "mode": "thread" if rng.random() < 0.15 else "proc", "replicate": rng.choice([1.0, 1.0, 0.5, 0.0])}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["die", "die", "dup", "slow"])
        if k == "die":
            cl["replicate"] = 1.0
            cl["faults"].append({"k": "die", "n": rng.randint(1, 8), "at": rng.choice(["start", "mid", "mid", "end"]),
                                 "line": rng.randint(1, 900)})
        elif k == "dup":
            cl["faults"].append({"k": "dup", "n": rng.randint(1, 8)})
        else:
            cl["faults"].append({"k": "slow", "w": rng.randrange(5), "factor": rng.choice([5, 40])})
    # never more deaths than scattered copies can survive (data loss on the cluster is P02's subject)
    deaths = [f for f in cl["faults"] if f["k"] == "die"]
    cl["workers"] = max(cl["workers"], len(deaths) + 1)
    return {"case": case, "cl": cl, "chunk": rng.choice([None, None, 1, 2, 3, 0.3, 0.5, 7]), "supplied": rng.random() < 0.4,
            "n_jobs": rng.choice([2, 3, 4, -1])}


def run(plan, ctx):
    import featuretools as ft
    from sim import cluster
    from sim.seams import Clock
    case = plan["case"]
    Clock.start(1600000000)
    es, fs, names = calls.build(case)
    serial, e = calls.attempt(lambda: ft.calculate_feature_matrix(fs, es, **calls.cutoff_args(case)))
    if e is not None:
        if not calls.rows_of(case):
            ctx.hit("no_rows")
            return
        raise Violation("serial-raises", "serial calculation fails: " + calls.describe(e))
    es2, fs2, _ = calls.build(case)
    sim = cluster.start(plan["cl"], ctx)
    kw = calls.cutoff_args(case)
    if plan["supplied"]:
        kw["dask_kwargs"] = {"cluster": cluster.SimCluster(n_workers=plan["cl"]["workers"], owned=False)}
        kw["n_jobs"] = 1
    else:
        kw["n_jobs"] = plan["n_jobs"] if plan["n_jobs"] < 0 else max(plan["n_jobs"], plan["cl"]["workers"])
    if plan["chunk"]:
        kw["chunk_size"] = plan["chunk"]
    par, e = calls.attempt(lambda: calls.matrix(case, ctx, fs2, es2, **kw))
    nch = len(sim.completion)
    order = list(sim.completion)
    ctx.event("chunks", nch, "order", order, "batches", sim.batches, "faults", [(f["k"], f.get("n"), f.get("at")) for f in sim.fired])
    for name, cond in [("out_of_order", order != sorted(order)), ("many_chunks", nch > 3), ("batch_gt1", any(b > 1 for b in sim.batches)),
                       ("approx", bool(case["approx"])), ("window", bool(case["window"])), ("single_cutoff", "single" in case),
                       ("fewer_chunks_than_workers", sim.clusters and nch < len(sim.clusters[0].workers)),
                       ("worker_died_mid_chunk", any(f["k"] == "die" and f["at"] == "mid" for f in sim.fired)),
                       ("task_rerun", sim.executions > nch), ("supplied_cluster", plan["supplied"]),
                       ("shared_memory_workers", plan["cl"]["mode"] == "thread")]:
        if cond:
            ctx.hit("probe." + name)
    ctx.nontrivial = nch >= 2
    ctx.sigs.add(util.digest([nch, order, sim.batches, [(f["k"], f.get("at")) for f in sim.fired]]))
    ctx.sample = {"chunks": nch, "order": order[:12], "batches": sim.batches[:12], "faults": [f["k"] for f in sim.fired]}
    if e is not None:
        raise Violation("parallel-raises", "parallel calculation fails where serial one succeeds: " + calls.describe(e))
    calls.check_frame(case, serial, names, values=not case["approx"], what="serial matrix")
    calls.check_frame(case, par, names, values=False, what="parallel matrix")
    calls.same(par, serial, "differs", "parallel versus serial")
    if not sim.clients:
        raise Violation("not-distributed", "the calculation did not use the cluster")
