"""P09: Dask-backed EntitySets give the Pandas result under any task schedule."""
import random

from sim import calls, escmp, graph, storage, util
from sim import model as M
from sim import workload as W
from sim.util import Violation

PROP = "P09"
LEVEL = "exploration"
TECHNIQUE = ("simulated dask task scheduler: seeded execution orders with lost results, re-executed tasks and values copied between workers, over seeded "
             "partitionings with empty partitions; results compared with pandas and the reference model")
NOTE = ("The same data in Pandas and in partitioned Dask dataframes; the lazy matrix, activity times and queries are materialised repeatedly by a simulated "
        "scheduler with faults and must equal the Pandas results, matched by instance.")
RUNS = {"quick": 330, "thorough": 30000}
RUN_TIMEOUT = 120
RULE = ("one run = one generated dataset, partitioning and feature list (own or from DFS), materialised two or three times by differently seeded simulated schedulers; "
        "distinct_nontrivial counts distinct (scheduler settings, features, partition layout) signatures")
MEASURE = "distinct (order, faults fired, graph size class, feature kinds, layout of partitions)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "dask dataframes and graphs"]
STUB = ["dask scheduler: sim/graph.py", "wall clock: build/libftsim.so"]
ASSUMPTIONS = ["tasks are atomic and executed one at a time; values move between workers by cloudpickle",
               "dask computes std of small or huge integers with overflow: such columns are left out",
               "DFS trials leave out logical operators: columns of booleans with nulls have other types with dask (documented)",
               "only primitives marked as Dask compatible, no training windows, approximation or use_previous (documented limits)",
               "a single-partition frame is made by from_pandas: dask 2024.4.2 fails to optimise some graphs over from_delayed with one partition"]
PROBES = ["empty_partition", "one_partition", "many_partitions", "redo", "lost", "copy", "again_later", "unoptimised", "dfs", "where", "pass_columns", "several_times",
          "single_cutoff", "lti", "query", "secondary", "numeric_time", "persist", "direct", "same_instance_twice", "disk_shuffle"]
SHRINK = ["case.specs", "case.ds.entities.*.rows", "case.ct.rows", "queries", "sched"]
AGG = ["mean", "mean_all", "any", "percent_true", "sum", "num_true", "std", "num_unique", "max", "min", "all", "count"]
TRANS = ["not_equal", "month", "num_words", "modulo_numeric", "negate", "week", "num_characters", "multiply_numeric_scalar", "divide_by_feature",
         "equal", "minute", "weekday", "multiply_numeric", "less_than_equal_to_scalar", "less_than", "second", "subtract_numeric", "is_weekend",
         "scalar_subtract_numeric_feature", "less_than_equal_to", "hour", "add_numeric_scalar", "day", "add_numeric", "greater_than_scalar", "divide_numeric_scalar",
         "year", "divide_numeric", "is_null", "absolute", "age", "time_since"]


def gen(rng, i):
    case = calls.gen_case(rng, windows=0, dskw=dict(sizes=(3, 10)), featkw=calls.DASK_FEATURES, nspecs=(1, 5))
    ds = case["ds"]
    parts = {}
    for e in ds["entities"]:
        n = len(e["rows"])
        r = rng.random()
        if r < 0.25:
            parts[e["id"]] = rng.choice([1, 1, 2, 3])
        else:
            parts[e["id"]] = sorted(rng.randint(0, n) for _ in range(rng.choice([1, 1, 2, 3, 5])))
    sched = []
    for _ in range(rng.choice([1, 2, 2])):
        sched.append({"seed": rng.randrange(1 << 30), "order": rng.choice(["random", "random", "last", "first"]), "redo": rng.choice([0, 0.1, 0.3]), "lost": rng.choice([0, 0.05, 0.2]),
                      "copy": rng.choice([0, 0, 0.3, 1]), "optimise": rng.random() < 0.7, "persist": rng.random() < 0.15})
    shuffle = rng.choice(["tasks", "tasks", "disk"])
    if shuffle == "disk":           # its tasks append to files, dask only uses it where no task is executed twice
        for s in sched:
            s.update(redo=0, lost=0, copy=0)
    plan = {"case": case, "parts": parts, "shuffle": shuffle, "sched": sched, "extras": [], "dfs": None, "queries": []}
    if rng.random() < 0.4:
        plan["extras"] = [x for x in storage.gen_extras(rng, ds) if x["k"] in ("text", "code", "nas", "dt_ns", "date_only", "ordinal", "bigdate")]
        plan["dfs"] = {"agg": rng.sample(AGG, rng.randint(1, 3)), "trans": rng.sample(TRANS, rng.randint(1, 3)), "max": rng.choice([8, 15, 25])}
    for _ in range(rng.choice([0, 1, 2])):
        e = rng.choice(ds["entities"])
        v = rng.choice(e["cols"])
        j = e["cols"].index(v)
        vals = sorted(set(repr(r[j]) for r in e["rows"] if r[j] is not None))
        plan["queries"].append({"e": e["id"], "v": v["n"] if v["t"] in ("index", "fk", "cat", "int") else None, "pick": rng.random(), "at": rng.choice([None, rng.randint(0, ds["slots"] + 1) * ds["step"]]),
                                "include": rng.random() < 0.6, "series": rng.random() < 0.3})
    return plan


def table(df, columns):
    cols = [list(df[c]) for c in columns]
    return [list(r) for r in zip(*cols)] if cols else []


def keyed(ids, columns, values):
    """rows as (instance, cells) sorted by instance"""
    return sorted(((repr(escmp.plain(i)), tuple(cell(v) for v in r)) for i, r in zip(ids, values)), key=lambda x: (x[0], repr(x[1])))


def cell(v):
    p = escmp.plain(v)
    if isinstance(p, tuple) and p and p[0] == "bool":
        return ("num", int(p[1]))           # documented: columns of booleans with nulls may have another type
    return p


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "num":
        return M.close(a[1], b[1])
    return a == b


def rows_differ(want, got, columns):
    """both: keyed rows. None = equal. Rows of the same instance are matched by their cells."""
    if [k for k, _ in want] != [k for k, _ in got]:
        w, g = [k for k, _ in want], [k for k, _ in got]
        return "%d rows versus %d (missing %s, more %s)" % (len(w), len(g), [k for k in w if k not in g][:3], [k for k in g if k not in w][:3])
    groups = {}
    for k, r in want:
        groups.setdefault(k, ([], []))[0].append(r)
    for k, r in got:
        groups[k][1].append(r)
    for k, (ws, gs) in groups.items():
        left = list(gs)
        for w in ws:
            for n, g in enumerate(left):
                if len(g) == len(w) and all(equal(x, y) for x, y in zip(w, g)):
                    left.pop(n)
                    break
            else:
                g = left[0]
                bad = [(columns[j], x, y) for j, (x, y) in enumerate(zip(w, g)) if not equal(x, y)]
                return "instance %s: %s" % (k, "; ".join("%s: %r versus %r" % b for b in bad[:4]))
    return None


def run(plan, ctx):
    import warnings

    import dask
    import featuretools as ft
    import pandas as pd
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    dask.config.set({"dataframe.shuffle.method": plan["shuffle"]})
    case, ds = plan["case"], plan["case"]["ds"]
    tgt = case["tgt"]
    ent = W.entity(ds, tgt)
    if not all(e["rows"] for e in ds["entities"]):
        raise util.Invalid("an entity without rows")
    parts = plan["parts"]
    data = M.Data(ds)
    es = storage.build(ds, plan["extras"])
    with dask.config.set(scheduler="synchronous"):
        esd = storage.build(ds, plan["extras"], npartitions=parts)
    hits = []
    on = hits.append

    def schedulers():
        for s in plan["sched"] or [{"seed": 1, "order": "first", "redo": 0, "lost": 0, "copy": 0, "optimise": True, "persist": False}]:
            yield s, graph.Graph(random.Random(s["seed"]), s["order"], s["redo"], s["lost"], s["copy"], on=on)

    def materialise(x, s, g):
        if s["persist"]:
            hits.append("persist")
            x = x.persist(scheduler=g, optimize_graph=s["optimise"])
        if not s["optimise"]:
            hits.append("unoptimised")
        return x.compute(scheduler=g, optimize_graph=s["optimise"])
    first = next(iter(schedulers()))
    # --- features
    if plan["dfs"]:
        o = plan["dfs"]
        opts = dict(target_entity=tgt, agg_primitives=[ft.primitives.Mean(skipna=False) if p == "mean_all" else p for p in o["agg"]], trans_primitives=o["trans"], max_depth=2, max_features=o["max"], features_only=True)
        (fs, err), (fd, errd) = calls.attempt(lambda: ft.dfs(entityset=es, **opts)), calls.attempt(lambda: ft.dfs(entityset=esd, **opts))
        if err or errd:
            if type(err) != type(errd):
                raise Violation("dfs_differs", "DFS: pandas %r versus dask %r" % (err, errd))
            return
        if [f.unique_name() for f in fs] != [f.unique_name() for f in fd]:
            raise Violation("dfs_differs", "DFS lists %r with pandas and %r with dask" % ([f.get_name() for f in fs], [f.get_name() for f in fd]))
        ctx.hit("probe.dfs")
    else:
        fs, fd = W.build_features(case["specs"], es), W.build_features(case["specs"], esd)
    if not fs:
        return
    names = M.feature_columns(fs)
    a, err = calls.attempt(lambda: ft.calculate_feature_matrix(fs, es, **calls.cutoff_args(case)))
    g0 = graph.Graph(random.Random(5), "random")
    with dask.config.set(scheduler=g0):         # what is computed while building the lazy matrix
        b, errd = calls.attempt(lambda: ft.calculate_feature_matrix(fd, esd, **calls.cutoff_args(case)))
    if err is not None:
        if errd is None:
            _, errd = calls.attempt(lambda: b.compute(scheduler=g0))
        if errd is None and plan["dfs"] is None:
            raise Violation("raises", "pandas fails, dask does not: " + calls.describe(err))
        return
    if errd is not None:
        raise Violation("dask_fails", calls.describe(errd))
    want_rows = calls.rows_of(case, data)
    extra = calls.extra_columns(case)
    seen = {}
    want, present = [], []
    cells = table(a, names)
    exp = M.matrix(data, case["specs"], want_rows, None, case["include"]) if not plan["dfs"] else None
    if exp is not None:
        d = M.diff_matrix(a.reset_index(drop=True), names, exp)
        if d:
            raise Violation("values", "pandas versus model: " + d)
    for k, (i, t) in enumerate(want_rows):
        key = (t, case["include"])
        if key not in seen:
            seen[key] = set(M.View(data, t, None, case["include"]).ids(tgt))
        if i in seen[key]:
            present.append(k)
    idn = ent["cols"][0]["n"]
    index = [x[0] if isinstance(x, tuple) else x for x in a.index]
    want = keyed([index[k] for k in present], names, [cells[k] + [list(a[x])[k] for x in extra] for k in present])
    for n, (s, g) in enumerate(schedulers()):
        got, errd = calls.attempt(lambda: materialise(b, s, g))
        what = "materialised with %s" % s
        if errd is not None:
            raise Violation("dask_fails", what + ": " + calls.describe(errd))
        if idn not in got.columns:
            raise Violation("dask_columns", "%s: no column for the instances in %r" % (what, list(got.columns)))
        missing = [c for c in names + extra if c not in got.columns]
        if missing:
            raise Violation("dask_columns", "%s: columns %r missing" % (what, missing))
        rows = table(got, names + extra)
        ids = list(got[idn])
        if extra:
            d = tags_differ(want_rows, present, index, cells, a, extra, ids, rows, names)
        else:
            d = rows_differ(want, keyed(ids, names, rows), names + extra)
        if d:
            raise Violation("matrix_differs", "%s, partitions %s: %s (pandas versus dask)" % (what, parts, d))
        ctx.event(n, g.tasks, g.executed, sorted(set(hits)))
        ctx.sigs.add(util.digest([s["order"], sorted(set(hits)), g.tasks // 20, sorted(type(f).__name__ for f in fs), [(p if isinstance(p, int) else len(p)) for p in parts.values()]]))
    # --- last time indexes
    if all(e.last_time_index is not None for e in es.entities):
        ctx.hit("probe.lti")
        for e in es.entities:
            lti = esd[e.id].last_time_index
            s, g = first
            got = lti.compute(scheduler=g) if hasattr(lti, "compute") else lti
            w = sorted((repr(escmp.plain(k)), repr(escmp.plain(v))) for k, v in e.last_time_index.items())
            h = sorted((repr(escmp.plain(k)), repr(escmp.plain(v))) for k, v in got.items())
            if w != h:
                bad = [x for x in w if x not in h][:3]
                raise Violation("lti_differs", "last times of %s: pandas %s, dask %s" % (e.id, bad, [x for x in h if x not in w][:3]))
    # --- queries
    for q in plan["queries"]:
        e = W.entity(ds, q["e"])
        vals = None
        if q["v"]:
            j = [c["n"] for c in e["cols"]].index(q["v"])
            pool = sorted(set(r[j] for r in e["rows"] if r[j] is not None), key=repr)
            vals = pool[:1 + int(q["pick"] * len(pool))]
            if not vals:
                continue
            if q["series"]:
                vals = pd.Series(vals, name=q["v"])
        args = dict(entity_id=q["e"], instance_vals=vals, variable_id=q["v"], time_last=None if q["at"] is None else W.ts(ds, q["at"]), include_cutoff_time=q["include"])
        ctx.hit("probe.query")
        x = es.query_by_values(**args)
        s, g = first
        y, errd = calls.attempt(lambda: materialise(esd.query_by_values(**args), s, g))
        if errd is not None:
            raise Violation("dask_fails", "query %s: %s" % (q, calls.describe(errd)))
        cols = list(x.columns)
        k = e["cols"][0]["n"]
        d = rows_differ(keyed(list(x[k]), cols, table(x, cols)), keyed(list(y[k]), cols, table(y, cols)), cols)
        if d:
            raise Violation("query_differs", "query %s: %s (pandas versus dask)" % (q, d))
    # --- the lazy matrix once more, after everything else
    ctx.hit("probe.again_later")
    got = b.compute(scheduler=graph.Graph(random.Random(77), "random", 0.1 if plan["shuffle"] == "tasks" else 0))
    d = None if extra else rows_differ(want, keyed(list(got[idn]), names, table(got, names)), names)
    if d:
        raise Violation("matrix_differs", "materialised again at the end: %s (pandas versus dask)" % d)
    for h in set(hits):
        ctx.hit("probe." + h)
    for h in hits:
        if h in ("redo", "lost", "copy"):
            ctx.hit("fault." + h)
    for name, c in [("one_partition", 1 in parts.values()), ("many_partitions", any(not isinstance(p, int) and len(p) > 2 for p in parts.values())), ("pass_columns", bool(extra)),
                    ("empty_partition", any(not isinstance(p, int) and (len(set(p)) < len(p) or 0 in p) for p in parts.values())),
                    ("where", any(s.get("where") for f in case["specs"] for s in M.subspecs(f))), ("several_times", len(set(t for _, t in want_rows)) > 1), ("single_cutoff", "single" in case), ("disk_shuffle", plan["shuffle"] == "disk"),
                    ("secondary", any(e["sec"] for e in ds["entities"])), ("numeric_time", ds["numeric_time"]), ("direct", any(f["k"] == "dir" for f in case["specs"])),
                    ("same_instance_twice", len(set(i for i, _ in want_rows)) < len(want_rows))]:
        if c:
            ctx.hit("probe." + name)
    ctx.nontrivial = bool(want)
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"features": names[:4], "partitions": parts, "rows": len(want), "tasks": g.tasks}


def tags_differ(want_rows, present, index, cells, a, extra, ids, rows, names):
    """With pass-through columns: Dask returns a row per row of the cutoff frame, with nulls for absent instances."""
    tags = [list(a[x]) for x in extra]
    want = keyed([index[k] for k in present], names, [cells[k] + [t[k] for t in tags] for k in present])
    gone = [k for k in range(len(want_rows)) if k not in set(present)]
    nulls = keyed([index[k] for k in gone], names, [[None] * len(names) + [t[k] for t in tags] for k in gone])
    return rows_differ(sorted(want + nulls, key=lambda x: (x[0], repr(x[1]))), keyed(ids, names, rows), names + extra)
