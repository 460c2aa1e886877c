"""P07: approximation only ever uses the value at the start of its time bucket."""
from sim import calls, util
from sim import model as M
from sim import workload as W
from sim.util import Violation

PROP = "P07"
LEVEL = "exploration"
TECHNIQUE = "simulated clock and dask cluster: the same approximated matrix calculated under seeded clocks, chunkings, schedules and row subsets, each against a reference model of the buckets"
NOTE = ("Approximated calculations are repeated with another clock, chunk size, simulated cluster schedule and subset of rows; every result is "
        "compared with an independent evaluator that takes approximated aggregations at the start of the bucket and everything else at the cutoff.")
CLUSTER = True
RUNS = {"quick": 420, "thorough": 30000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated entityset, feature list with direct features of aggregations and cutoff table, calculated two to four times under "
        "different clocks, chunkings, schedules and row subsets; distinct_nontrivial counts distinct (features, bucket, cutoffs, variant) digests "
        "of runs in which an approximated value differs from the exact one")
MEASURE = "distinct (features, bucket size, cutoffs, variants) digests where approximation changed a value"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas"]
STUB = ["wall clock: build/libftsim.so", "dask.distributed: sim/cluster.py"]
ASSUMPTIONS = ["buckets count from the Unix epoch (from 0 for numeric time)"]
PROBES = ["value_changed", "numeric_time", "window", "two_paths", "two_times_in_bucket", "parallel", "chunked", "clock_moved", "subset", "permuted",
          "parent_unseen_at_bucket", "all_approximated", "boundary_cutoff", "string_bucket", "excluded_cutoff", "worker_fault", "negative_time", "via_dfs"]
SHRINK = ["variants", "case.ct.rows", "case.specs", "case.ds.entities.*.rows"]
SIG_NOW = "P07:all-aggregations-approximated-uses-now"
MIN = {"s": 1 / 60.0, "m": 1, "h": 60, "d": 1440, "w": 10080}


def gen(rng, i):
    for _ in range(60):
        case = calls.gen_case(rng, windows=0.25, approximate=1.0, single=0.0, maxrows=12, nspecs=(1, 4), dskw={"numeric": rng.random() < 0.2})
        ds, st = case["ds"], case["ds"]["step"]
        g = W.FeatGen(rng, ds)
        for _ in range(rng.randint(0, 3)):
            r = g.g_dir(case["tgt"], 2)
            if r is not None and r[0]["b"]["k"] in ("agg", "dir") and not W.name_clash(r[0], case["specs"]) and repr(r[0]) not in map(repr, case["specs"]):
                case["specs"].append(r[0])
                if r[1] == "num" and rng.random() < 0.25:
                    t = {"k": "tr", "p": "Negate", "e": case["tgt"], "b": [r[0]]}
                    if not W.name_clash(t, case["specs"]):
                        case["specs"].append(t)
        if not calls.approximated(case):
            continue
        if ds["numeric_time"]:
            case["approx"] = rng.choice([2, 3, 5, 7])
        else:
            case["approx"] = rng.choice([[2 * st, "m"], [3 * st, "m"], [3 * st + 7, "m"], [1, "d"], [6, "h"], [90 * st, "s"], [1, "w"], [36, "h"]])
        rows = case["ct"]["rows"]
        for r in list(rows)[:4]:
            # other times of the same instance, close by, and exactly at a bucket's start
            for t in (r[1] + (1 if ds["numeric_time"] or st < 60 else st // 4), start(case, r[1])):
                if t >= 0 and rng.random() < 0.5 and [r[0], t] not in [list(x[:2]) for x in rows]:
                    rows.append([r[0], t])
        if not calls.unapprox_agg(case):
            r = g.g_agg(case["tgt"], 1)
            s = None if r is None else r[0]["b"] if r[0]["k"] == "slice" else r[0]      # a slice cannot be requested by itself
            if s is not None and not W.name_clash(s, case["specs"]):
                case["specs"].append(s)
            if not calls.unapprox_agg(case) and rng.random() < 0.96:
                continue
        if rng.random() < 0.03:
            ap = {r for _, r in calls.approximated(case)}
            keep = [s for s in case["specs"] if not calls.unapprox_agg(dict(case, specs=[s]))]
            if any(s["k"] == "dir" and repr(s["b"]) in ap for s in keep):
                case["specs"] = keep
        break
    else:
        return {"case": None}
    vs = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        v = {"clock": rng.choice([1600000000, 1300000000, 1600000000 + 86400 * 37]), "chunk": rng.choice([None, 1, 2, 3, 0.5]),
             "jobs": rng.choice([1, 1, 1, 2, 3]), "rows": rng.choice(["all", "all", "subset", "permuted"]), "pick": rng.randrange(1 << 30),
             "cl": {"seed": rng.randrange(10 ** 6), "workers": rng.randint(1, 4), "faults": [], "mode": "proc", "replicate": 1.0}}
        if rng.random() < 0.3:
            v["cl"]["faults"].append({"k": rng.choice(["die", "dup"]), "n": rng.randint(1, 5), "at": "mid", "line": rng.randint(1, 900)})
            v["cl"]["workers"] = 3
        vs.append(v)
    return {"case": case, "variants": vs, "string": rng.random() < 0.3}


def start(case, t):
    """Start of the bucket of minute t."""
    import datetime
    a = case["approx"]
    if isinstance(a, int):
        z = case["ds"].get("zero", 0)
        return (t - z) // a * a + z
    off = (W.BASE - datetime.datetime(1970, 1, 1)).total_seconds() / 60 if not isinstance(W.BASE, str) else None
    size = a[0] * MIN[a[1]]
    s = (t + off) // size * size - off
    return int(s) if s == int(s) else s


def args(case, string):
    kw = calls.cutoff_args(dict(case, approx=None))
    a = case["approx"]
    if isinstance(a, int):
        kw["approximate"] = a
    elif string:
        kw["approximate"] = "%d %s" % (a[0], {"s": "seconds", "m": "minutes", "h": "hours", "d": "days", "w": "weeks"}[a[1]])
    else:
        kw["approximate"] = W.timedelta(a)
    return kw


def run(plan, ctx):
    import random
    from sim import cluster
    from sim.seams import Clock
    case = plan["case"]
    if case is None:
        return
    ds = case["ds"]
    approx = calls.approximated(case)
    if not approx or not case["ct"]["rows"]:
        raise util.Invalid("nothing approximated")
    allapprox = not calls.unapprox_agg(case)
    data = M.Data(ds)
    views = {}

    def view(t):
        if t not in views:
            views[t] = M.ApproxView(data, t, case["window"], case["include"], approx, lambda x: start(case, x))
        return views[t]

    def call(v, rows):
        c = dict(case, ct=dict(case["ct"], rows=rows))
        Clock.start(v["clock"])
        es, fs, names = calls.build(c)
        kw = args(c, plan["string"])
        if v["chunk"]:
            kw["chunk_size"] = v["chunk"]
        if v["jobs"] > 1:
            sim = cluster.start(v["cl"], ctx)
            kw["n_jobs"] = max(v["jobs"], v["cl"]["workers"])
        fm = calls.matrix(case, ctx, fs, es, **kw)
        if v["jobs"] > 1:
            if any(f["k"] in ("die", "dup") for f in sim.fired):
                ctx.hit("probe.worker_fault")
        return c, fm, names
    rows0 = case["ct"]["rows"]
    changed = False
    for v in [{"clock": 1700000000, "chunk": None, "jobs": 1, "rows": "all"}] + plan["variants"]:
        rows = list(rows0)
        if v["rows"] != "all":
            r = random.Random(v["pick"])
            r.shuffle(rows)
            if v["rows"] == "subset":
                rows = rows[:max(1, len(rows) // 2)]
        what = "matrix (%s)" % ", ".join("%s=%s" % (k, v[k]) for k in ("clock", "chunk", "jobs", "rows"))
        got, e = calls.attempt(lambda: call(v, rows))
        if e is not None:
            raise Violation("raises", "%s: %s" % (what, calls.describe(e)))
        c, fm, names = got
        calls.check_frame(c, fm, names, values=False, what=what)
        later = None
        for k, (i, t) in enumerate(rows):
            vw = view(t)
            at = 0
            seen = i in set(vw.exact.ids(case["tgt"]))
            for s in case["specs"]:
                n = M.width(s)
                vals = vw.ev(s)
                exact = vw.exact.ev(s)
                d = M.default(s)
                exp = vals.get(i, [d] * n if n > 1 else d)
                ex = exact.get(i, [d] * n if n > 1 else d)
                exp, ex = (exp, ex) if n > 1 else ([exp], [ex])
                direct = s["k"] == "dir" and is_approx(s, approx)
                for j in range(n):
                    g = fm[names[at + j]].iloc[k]
                    if not M.close(g, exp[j]):
                        msg = "%s row %d (%r, minute %s, bucket %s) column %s: got %r, expected %r (exact value %r)" % (
                            what, k, i, t, start(case, t), names[at + j], g, exp[j], ex[j])
                        if not allapprox or (direct and seen and visible_path(s, vw, i) and v["clock"] > 1590000000):
                            raise Violation("values", msg)
                        later = later or Violation("values-at-now", msg, SIG_NOW)
                    if seen and direct and not M.close(exp[j], ex[j]):
                        changed = True
                at += n
            if not M.close(start(case, t), t):
                pass
            elif seen:
                ctx.hit("probe.boundary_cutoff")
        if later is not None:
            raise later
        for name, cond in [("parallel", v["jobs"] > 1), ("chunked", bool(v["chunk"])), ("clock_moved", v["clock"] != 1700000000),
                           ("subset", v["rows"] == "subset"), ("permuted", v["rows"] == "permuted")]:
            if cond:
                ctx.hit("probe." + name)
    buckets = [(r[0], start(case, r[1])) for r in rows0]
    for name, cond in [("value_changed", changed), ("numeric_time", ds["numeric_time"]), ("window", bool(case["window"])),
                       ("negative_time", ds["numeric_time"] and any(W.ts(ds, r[1]) < 0 for r in rows0)),
                       ("two_paths", len({p for p, _ in approx}) > 1), ("two_times_in_bucket", len(set(buckets)) < len(buckets)),
                       ("all_approximated", allapprox), ("string_bucket", plan["string"]), ("excluded_cutoff", not case["include"])]:
        if cond:
            ctx.hit("probe." + name)
    ctx.nontrivial = changed
    dg = util.digest([case["specs"], case["approx"], rows0, plan["variants"]])
    ctx.sigs.add(dg)
    ctx.event(dg, changed, allapprox)
    ctx.sample = {"approximated": len(approx), "bucket": case["approx"], "rows": len(rows0), "variants": len(plan["variants"])}


def is_approx(s, approx):
    path, b = (s["rel"],), s["b"]
    while b["k"] == "dir":
        path, b = path + (b["rel"],), b["b"]
    return (path, repr(b)) in approx


def visible_path(s, vw, i):
    """Every instance on the way to the approximated aggregation is visible at the cutoff."""
    v = vw.exact
    while s["k"] == "dir":
        p, c, fk = v.ds["rels"][s["rel"]]
        r = next((r for r in v.visible(c) if r[v.d.ents[c]["index"]] == i), None)
        if r is None:
            return False
        i, s = r[fk], s["b"]
    return i in set(v.ids(p))
