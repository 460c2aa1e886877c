"""P13: concurrent calculations sharing an EntitySet do not disturb each other."""
from sim import calls, escmp, lines, threads, util
from sim import workload as W
from sim.checks import p12
from sim.util import Violation

PROP = "P13"
LEVEL = "exploration"
TECHNIQUE = ("real threads under a seeded scheduler that changes hands only at chosen executed lines of the real code; every thread's result compared with the "
             "one obtained alone")
NOTE = ("Two to four threads calculate, run dfs, save features or read metadata from one EntitySet and shared features; a plan decides before which executed "
        "lines control changes hands. Results must equal those obtained alone and the EntitySet must be unchanged. Preemption inside pandas is not simulated.")
PRE_IMPORT = threads.install
RUNS = {"quick": 420, "thorough": 25000}
RUN_TIMEOUT = 90
RULE = ("one run = one generated EntitySet, 2-4 operations executed alone and then concurrently under one schedule; distinct_nontrivial counts distinct "
        "(operations, places of the switches) signatures of runs in which control changed hands while at least two threads were alive")
MEASURE = "distinct (operations, code places at which control changed hands)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "Python threads"]
STUB = ["thread scheduling: sim/threads.py (one thread runs at a time; locks created by featuretools are simulated)"]
ASSUMPTIONS = ["threads are preempted between executed lines of featuretools, not inside pandas"]
PROBES = ["calc", "dfs", "dfs_matrix", "metadata", "save", "describe", "pickle", "approx", "window", "switched", "many_switches", "same_features", "three", "raises", "lockstep"]
SHRINK = ["switches", "places", "focus", "ops", "case.specs", "case.ds.entities.*.rows"]


def gen(rng, i):
    import featuretools.primitives as fp
    case = calls.gen_case(rng, windows=0.2, approximate=0.25, single=0.3, maxrows=6, nspecs=(1, 3), dskw=dict(sizes=(3, 7)))
    ops = []
    case["specs"] = calls.rename_some(rng, case["specs"])
    if rng.random() < 0.4:
        many = calls.several_outputs(rng, case["ds"], case["tgt"])
        case["specs"] += [many] if many else []
    aggs, trs = sorted(fp.get_aggregation_primitives()), sorted(fp.get_transform_primitives())
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        k = rng.choice(["calc", "calc", "calc", "dfs", "dfs_matrix", "metadata", "save", "describe", "pickle"])
        o = {"k": k}
        if k.startswith("dfs"):
            o.update(agg=rng.sample(aggs, rng.randint(1, 3)), trans=rng.sample(trs, rng.randint(1, 4)), depth=rng.choice([1, 2]),
                     gb=rng.sample(["cum_sum", "cum_count", "diff", "percentile"], rng.choice([0, 1])), max=12)
        if k == "calc":
            o["other"] = rng.random() < 0.5
            o["t"] = rng.randint(0, case["ds"]["slots"] + 1) * case["ds"]["step"]
            o["progress"] = rng.random() < 0.2
            o["chunk"] = rng.choice([None, None, 1])
        ops.append(o)
    plan = {"case": case, "ops": ops, "start": rng.randrange(4), "switches": [], "places": []}
    for _ in range(rng.choice([1, 2, 3, 5, 9, 20])):
        if rng.random() < 0.5:
            plan["switches"].append([rng.random(), rng.randrange(4)])
        else:
            plan["places"].append([rng.random(), rng.randint(1, 3), rng.randrange(4)])
    plan["focus"] = [rng.random() for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
    return plan


def make(plan):
    es = W.build_es(plan["case"]["ds"])
    return es, W.build_features(plan["case"]["specs"], es)


def op(o, plan, es, fs, ft):
    """-> function carrying the operation out and describing its result."""
    case = plan["case"]
    k = o["k"]
    if k == "calc":
        kw = calls.cutoff_args(case)
        if o["other"]:
            kw = {"cutoff_time": W.ts(case["ds"], o["t"]), "include_cutoff_time": not case["include"]}
        if o["progress"]:
            kw["progress_callback"] = lambda *a: None
        if o["chunk"]:
            kw["chunk_size"] = o["chunk"]
        return lambda: p12.cells(ft.calculate_feature_matrix(fs, es, **kw))
    if k in ("dfs", "dfs_matrix"):
        kw = dict(entityset=es, target_entity=case["tgt"], agg_primitives=o["agg"], trans_primitives=o["trans"], groupby_trans_primitives=o["gb"],
                  max_depth=o["depth"], max_features=o["max"], features_only=k == "dfs")
        if k == "dfs":
            return lambda: [p12.feature(f) for f in ft.dfs(**kw)]
        kw["cutoff_time"] = W.ts(case["ds"], case["ds"]["slots"] * case["ds"]["step"])

        def both():
            fm, fl = ft.dfs(**kw)
            return [p12.cells(fm), [p12.feature(f) for f in fl]]
        return both
    if k == "metadata":
        return lambda: escmp.metadata(es)
    if k == "save":
        import json
        return lambda: json.loads(ft.save_features(fs))
    if k == "describe":
        return lambda: [[ft.describe_feature(f), f.get_name(), f.unique_name(), f.get_feature_names(), repr(f)] for f in fs]
    import cloudpickle
    return lambda: [escmp.describe(cloudpickle.loads(cloudpickle.dumps(es))), [f.get_name() for f in cloudpickle.loads(cloudpickle.dumps(fs))]]


def run(plan, ctx):
    import warnings

    import featuretools as ft
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    case = plan["case"]
    if len(plan["ops"]) < 2:
        raise util.Invalid("one thread")
    if any(o["k"] == "calc" for o in plan["ops"]):
        for n in ("approx", "window"):
            if case[n]:
                ctx.hit("probe." + n)
    es0, fs0 = make(plan)
    before = escmp.describe(es0)
    meta = escmp.metadata(es0)
    feats = [p12.feature(f) for f in fs0]
    alone, places, total, users = [], {}, 0, {}
    for o in plan["ops"]:
        ctx.hit("probe." + o["k"])
        es1, fs1 = make(plan)
        seen = p12.Places()
        try:
            fn = op(o, plan, es1, fs1, ft)
            with lines.watching(seen):
                alone.append(("ok", fn()))
        except Exception as e:
            alone.append(("exc", type(e).__name__))
            ctx.hit("probe.raises")
        total += seen.n
        for k, v in seen.at.items():
            places[k] = max(places.get(k, 0), len(v))
        for f in {k[:2] for k in seen.at}:
            users[f] = users.get(f, 0) + 1
    if sum(o["k"] in ("calc", "save", "describe") for o in plan["ops"]) > 1:
        ctx.hit("probe.same_features")
    if len(plan["ops"]) > 2:
        ctx.hit("probe.three")
    es, fs = make(plan)
    locs = sorted(places)
    at = {}
    for u, n, c in plan["places"]:
        k = locs[int(u * len(locs))]
        at.setdefault(k, {})[1 + (n - 1) % max(1, places[k])] = c
    # functions that several of the threads execute, taken turns at line by line
    common = sorted(f for f in users if users[f] > 1)
    for u in plan.get("focus", []) if common else []:
        f = common[int(u * len(common))]
        ctx.hit("probe.lockstep")
        for k in locs:
            if k[:2] == f:
                for n in range(1, 60):
                    at.setdefault(k, {}).setdefault(n, n % 7)
    b = threads.Baton([[1 + int(u * total), c] for u, c in plan["switches"]], plan["start"], at)
    fns = [op(o, plan, es, fs, ft) for o in plan["ops"]]
    for k, fn in enumerate(fns):
        b.spawn("t%d" % k, fn)
    real = b._switch
    spots = []

    def switch(t):
        spots.append(b.points)
        real(t)
    b._switch = switch
    try:
        b.run(by_line=True)
    except threads.Deadlock as e:
        raise Violation("deadlock", str(e))
    for o, a, t in zip(plan["ops"], alone, b.threads):
        if t.exc is not None and not isinstance(t.exc, Exception):
            raise t.exc
        if t.exc is not None:
            if isinstance(t.exc, threads.Deadlock):
                raise Violation("deadlock", "%s: %s" % (o, t.exc))
            if a[0] == "ok":
                raise Violation("fails_only_concurrently", "%s: %s" % (o, calls.describe(t.exc)))
            if a[1] != type(t.exc).__name__:
                raise Violation("other_failure", "%s: alone %s, concurrently %s" % (o, a[1], calls.describe(t.exc)))
            continue
        if a[0] != "ok":
            raise Violation("succeeds_only_concurrently", "%s: alone it raises %s" % (o, a[1]))
        d = escmp.diff(a[1], t.result)
        if d:
            raise Violation("result_disturbed", "%s (alone versus concurrent): %s" % (o, d))
    d = escmp.diff(before, escmp.describe(es))
    if d:
        raise Violation("entityset_changed", d)
    d = escmp.diff(meta, escmp.metadata(es))
    if d:
        raise Violation("metadata_changed", d)
    d = escmp.diff(feats, [p12.feature(f) for f in fs])
    if d:
        raise Violation("features_changed", d)
    n = len(b.trace)
    if n > len(plan["ops"]) - 1 or spots:
        ctx.hit("probe.switched")
        ctx.hit("fault.preemption", n)
    if n > 5:
        ctx.hit("probe.many_switches")
    ctx.nontrivial = n > 1
    ctx.event(b.trace[:200], [o["k"] for o in plan["ops"]])
    ctx.sigs.add("%s|%s" % ([o["k"] for o in plan["ops"]], [(k[1], k[2]) for k in sorted(at)][:6] + [p * 200 // max(1, total) for p in spots[:6]]))
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"ops": [o["k"] for o in plan["ops"]], "lines": total, "switches": n, "schedule": [list(x) for x in b.trace[:6]]}
