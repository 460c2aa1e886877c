"""P12: calculations never alter their inputs, even when interrupted."""
import copy
import linecache
import re

from sim import calls, escmp, lines, storage, util
from sim import workload as W
from sim.util import Violation

PROP = "P12"
LEVEL = "exploration"
TECHNIQUE = ("calculations interrupted at seeded execution positions (every executed line of the real code is a position) by signals, failing allocations, "
             "failing primitives and callbacks; all inputs compared with an untouched twin, then the call is repeated")
NOTE = ("A history of calls on one EntitySet, each undisturbed or broken off at a chosen line, primitive call or progress report; afterwards the data, "
        "metadata, features and arguments are compared with a twin built from the same plan, and the repeated call with the twin's result.")
CLUSTER = True
RUNS = {"quick": 400, "thorough": 20000}
RUN_TIMEOUT = 90
RULE = ("one run = one generated EntitySet, call and sequence of 0-5 interruptions at drawn positions, followed by the comparison with the twin; "
        "distinct_nontrivial counts distinct (operation, interruption kind, code location struck) signatures")
MEASURE = "distinct (operation, interruption kind, code location struck)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas"]
STUB = ["dask.distributed: sim/cluster.py (parallel runs)", "signals and failing allocations: exceptions raised at a chosen executed line (sim/lines.py)"]
ASSUMPTIONS = ["an interruption strikes between executed lines of featuretools; a line of pandas is not itself torn"]
PROBES = ["calc", "dfs", "dfs_frames", "interrupted", "swallowed", "prim_failed", "callback_failed", "bad_call", "parallel", "approx", "window",
          "all_primitives", "options", "secondary", "numeric_time", "twice_interrupted", "ids_of_other_dtype", "primitive_objects"]
SHRINK = ["cuts", "case.ct.rows", "case.specs", "extras", "marks", "agg", "trans", "case.ds.entities.*.rows"]


class Stop(Exception):
    """what a signal handler of the embedding program raises"""


KINDS = {"ctrl_c": KeyboardInterrupt, "memory": MemoryError, "handler": Stop}


def gen(rng, i):
    import featuretools.primitives as fp
    op = rng.choice(["calc", "calc", "calc", "dfs", "dfs", "dfs_frames"])
    plan = {"op": op, "cuts": [], "extras": [], "marks": []}
    case = calls.gen_case(rng, windows=0.3, approximate=0.25, single=0.35, maxrows=8, nspecs=(1, 3), dskw=dict(sizes=(3, 9)))
    plan["case"] = case
    case["specs"] = calls.rename_some(rng, case["specs"])
    if rng.random() < 0.4:
        many = calls.several_outputs(rng, case["ds"], case["tgt"])
        case["specs"] += [many] if many else []
    ds = case["ds"]
    if op == "calc":
        plan["chunk"] = rng.choice([None, None, 1, 2, 0.5])
        plan["n_jobs"] = rng.choice([1] * 7 + [2])
        plan["progress"] = rng.random() < 0.3
    else:
        plan["extras"] = storage.gen_extras(rng, ds)
        if op == "dfs_frames":
            for e in ds["entities"]:
                e["sec"] = None
            case["window"] = None
        else:
            plan["marks"] = [m for m in storage.gen_marks(rng, ds, plan["extras"])]
        plan["agg"] = rng.sample(sorted(fp.get_aggregation_primitives()), rng.randint(1, 5))
        plan["trans"] = rng.sample(sorted(fp.get_transform_primitives()), rng.randint(1, 7))
        plan["groupby"] = rng.sample(["cum_sum", "cum_count", "cum_mean", "cum_max", "diff", "percentile", "time_since_previous", "negate"], rng.choice([0, 0, 1, 2]))
        plan["where"] = rng.sample(plan["agg"], min(len(plan["agg"]), rng.choice([0, 0, 1, 2])))
        plan["depth"] = rng.choice([1, 2, 2])
        plan["only"] = rng.random() < 0.35
        plan["max"] = rng.choice([-1, 12, 30]) if plan["only"] else rng.choice([6, 15, 25])
        plan["opts"] = rng.random() < 0.4
        plan["seed_feature"] = rng.random() < 0.3
        case["approx"] = None
    plan["ids_as"] = rng.choice(["list", "list", "series", "array", "index", "tuple"])
    plan["id_dtype"] = rng.choice([None, None, None, "int32", "object", "category"])
    plan["objects"] = rng.random() < 0.4
    plan["bad"] = rng.choice([None] * 9 + ["cutoff_col", "dup_rows", "target", "cutoff_type", "window"])
    for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
        c = {"k": rng.choice(["ctrl_c", "ctrl_c", "memory", "handler"]), "u": rng.random(), "by": rng.choice(["line", "place", "place", "write"])}
        if op == "calc":
            r = rng.random()
            if r < 0.15:
                c = {"k": "prim", "u": rng.random(), "n": rng.randint(1, 4)}
            elif r < 0.25 and plan.get("progress"):
                c = {"k": "callback", "n": rng.randint(1, 3)}
        plan["cuts"].append(c)
    return plan


WRITE = re.compile(r"\.\w+(\[.*\])? [-+|]?= |\]\s[-+|]?= |\.(append|add|update|extend|pop|remove|sort|insert|setdefault|clear)\(|inplace=True")


def inputs(plan, ft):
    """Everything the call takes, built afresh."""
    import numpy as np
    import pandas as pd
    case = plan["case"]
    ds = case["ds"]
    x = {"es": None, "fs": None, "kw": None, "frames": None}
    kw = calls.cutoff_args(case)
    if "instance_ids" in kw:
        if plan["ids_as"] == "series":
            kw["instance_ids"] = pd.Series(kw["instance_ids"], index=range(7, 7 + len(kw["instance_ids"])))
        elif plan["ids_as"] == "array":
            kw["instance_ids"] = np.array(kw["instance_ids"], dtype=object if ds["str_ids"] else None)
        elif plan["ids_as"] == "index":
            kw["instance_ids"] = pd.Index(kw["instance_ids"], name="who")
        elif plan["ids_as"] == "tuple":
            kw["instance_ids"] = tuple(kw["instance_ids"])
    ct = kw["cutoff_time"]
    table = isinstance(ct, pd.DataFrame)
    bad = plan["bad"]
    if table and plan.get("id_dtype") and not (ds["str_ids"] and plan["id_dtype"] == "int32"):
        ct[ct.columns[0]] = ct[ct.columns[0]].astype(plan["id_dtype"])
    if bad == "cutoff_col" and table:
        kw["cutoff_time"] = ct.rename(columns={ct.columns[0]: "unrelated", ct.columns[1]: "neither"})
    elif bad == "dup_rows" and table and len(ct):
        kw["cutoff_time"] = pd.concat([ct, ct.iloc[:1]])
    elif bad == "cutoff_type":
        kw["cutoff_time"] = "not a time" if not table else ct.assign(**{ct.columns[1]: ["zz"] * len(ct)})
    elif bad == "window":
        kw["training_window"] = "3 of something"
    if plan["op"] == "dfs_frames":
        ents, frames = {}, {}
        for e in ds["entities"]:
            df = W.frame(ds, e)
            types = W.variable_types(ds, e)
            for z in plan["extras"]:
                if z["e"] == e["id"]:
                    df["z_" + z["k"]] = storage.extra_series(z, len(df))
                    types["z_" + z["k"]] = getattr(ft.variable_types, storage.VT[z["k"]])
            frames[e["id"]] = df
            ents[e["id"]] = (df, e["cols"][0]["n"], W.time_col(e), types)
        x["frames"] = frames
        kw["entities"] = ents
        kw["relationships"] = [(p, W.entity(ds, p)["cols"][0]["n"], c, fk) for p, c, fk in ds["rels"]]
    elif plan["op"] == "dfs":
        x["es"] = kw["entityset"] = storage.build(ds, plan["extras"], plan["marks"])
    else:
        x["es"] = W.build_es(ds)
        x["fs"] = W.build_features(case["specs"], x["es"])
    if plan["op"] != "calc":
        kw.update(target_entity=case["tgt"] if bad != "target" else "no_such_entity", agg_primitives=list(plan["agg"]), trans_primitives=list(plan["trans"]),
                  groupby_trans_primitives=list(plan["groupby"]), where_primitives=list(plan["where"]), max_depth=plan["depth"], features_only=plan["only"],
                  max_features=plan["max"])
        if plan.get("objects"):
            prims = dict(ft.primitives.get_aggregation_primitives(), **ft.primitives.get_transform_primitives())
            for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives"):
                kw[k] = [prims[n]() if j % 2 else prims[n] for j, n in enumerate(kw[k])]
        if plan["opts"]:
            others = [e["id"] for e in ds["entities"] if e["id"] != case["tgt"]]
            kw["primitive_options"] = {plan["trans"][0]: {"ignore_variables": {e["id"]: ["x"] for e in ds["entities"]}},
                                       plan["agg"][0]: {"include_entities": [e["id"] for e in ds["entities"]], "ignore_groupby_variables": {case["tgt"]: ["kind"]}}}
            kw["ignore_variables"] = {case["tgt"]: ["kind"]}
            kw["ignore_entities"] = others[-1:] if len(others) > 1 else []
            kw["drop_contains"] = ["MONTH("]
            kw["drop_exact"] = ["no such feature"]
            if ds["rels"]:
                kw["allowed_paths"] = [[case["tgt"], o] for o in others] + [[case["tgt"]]]
        if plan["seed_feature"] and x["es"] is not None:
            kw["seed_features"] = [ft.Feature(x["es"][case["tgt"]]["x"], primitive=ft.primitives.Absolute())]
    else:
        kw["features"], kw["entityset"] = list(x["fs"]), x["es"]
        if plan["chunk"]:
            kw["chunk_size"] = plan["chunk"]
        if plan["n_jobs"] > 1:
            kw["n_jobs"] = plan["n_jobs"]
    x["kw"] = kw
    return x


def cells(df):
    import pandas as pd
    if isinstance(df, pd.Series):
        return ["S", [escmp.plain(v) for v in df.index], [escmp.plain(v) for v in df], str(df.dtype), str(df.name), list(map(str, df.index.names))]
    return [[str(c) for c in df.columns], [str(n) for n in df.columns.names], [str(n) for n in df.index.names], [escmp.plain(v) for v in df.index],
            [str(t) for t in df.dtypes], [[escmp.plain(v) for v in df.iloc[:, k]] for k in range(df.shape[1])]]


def arg(v):
    import numpy as np
    import pandas as pd
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return cells(v)
    if isinstance(v, np.ndarray):
        return ["A", str(v.dtype), [escmp.plain(q) for q in v]]
    if isinstance(v, dict):
        return ["D", [[str(k), arg(q)] for k, q in v.items()]]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [arg(q) for q in v]
    if type(v).__name__ == "EntitySet":
        return "entityset"
    if hasattr(v, "unique_name"):
        return ["F", v.get_name(), v.unique_name(), list(v.get_feature_names())]
    if isinstance(v, type):
        return v.__name__
    if hasattr(v, "get_arguments"):
        return repr(v.get_arguments())
    if callable(v):
        return "fn"
    return escmp.plain(v)


def feature(f):
    f.get_name()            # the name is cached at first use and then shows up among the arguments
    try:
        a = repr(sorted(f.get_arguments().items(), key=str))
    except Exception as e:
        a = repr(e)
    return [type(f).__name__, f.get_name(), f.unique_name(), f.entity.id, list(f.get_feature_names()), repr(f.variable_type), a,
            [d.unique_name() for d in f.get_dependencies()], [feature(d) for d in f.base_features]]


def state(x):
    out = {"args": {k: arg(v) for k, v in x["kw"].items()}}
    if x["es"] is not None:
        out["es"] = escmp.describe(x["es"])
        out["es"]["lti_order"] = {e.id: cells(e.last_time_index) for e in x["es"].entities if e.last_time_index is not None}
        out["es"]["frames"] = {e.id: [list(map(str, e.df.index.names)), list(map(str, e.df.columns.names))] for e in x["es"].entities}
        out["meta"] = escmp.metadata(x["es"])
        out["order"] = [list(x["es"].entity_dict), [str(r) for r in x["es"].relationships]]
    if x["fs"] is not None:
        out["features"] = [feature(f) for f in x["fs"]]
    if x["kw"].get("seed_features"):
        out["seeds"] = [feature(f) for f in x["kw"]["seed_features"]]
    if x["frames"] is not None:
        out["frames"] = {k: cells(v) for k, v in x["frames"].items()}
    return out


def outcome(r, plan):
    """The call's result as plain data."""
    if plan["op"] == "calc":
        return cells(r)
    if plan["only"]:
        return [feature(f) for f in r]
    return [cells(r[0]), [feature(f) for f in r[1]]]


def do(x, plan, ft, **more):
    kw = dict(x["kw"], **more)
    if plan["op"] == "calc":
        return ft.calculate_feature_matrix(**kw)
    return ft.dfs(**kw)


class Places:
    """Executed lines of one undisturbed call, by place."""

    def __init__(self):
        self.n = 0
        self.at = {}

    def __call__(self, code, line):
        self.n += 1
        key = (code.co_filename, code.co_name, line)
        if key in self.at or len(self.at) < 5000:
            self.at.setdefault(key, []).append(self.n)


def run(plan, ctx):
    import warnings

    import featuretools as ft
    from sim import cluster
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    case = plan["case"]
    ctx.hit("probe." + plan["op"])
    conf = {"seed": 1, "workers": 2, "faults": [], "mode": "inline", "replicate": 1.0}
    parallel = plan["op"] == "calc" and plan["n_jobs"] > 1
    cluster.start(dict(conf))
    twin = inputs(plan, ft)
    ref = state(twin)
    places = Places()
    undisturbed = err = None
    try:
        fresh = inputs(plan, ft)
        with lines.watching(places):
            undisturbed = do(fresh, plan, ft)
        undisturbed = outcome(undisturbed, plan)
    except Exception as e:
        err = e
        ctx.hit("probe.bad_call")
    check(fresh, ref, ctx, "after the call%s" % (" that raised %r" % err if err is not None else ""))
    if case["approx"]:
        ctx.hit("probe.approx")
    if case["window"]:
        ctx.hit("probe.window")
    if any(e["sec"] for e in case["ds"]["entities"]):
        ctx.hit("probe.secondary")
    if case["ds"]["numeric_time"]:
        ctx.hit("probe.numeric_time")
    if parallel:
        ctx.hit("probe.parallel")
    if plan.get("opts"):
        ctx.hit("probe.options")
    if plan.get("id_dtype") and "ct" in case:
        ctx.hit("probe.ids_of_other_dtype")
    if plan.get("objects") and plan["op"] != "calc":
        ctx.hit("probe.primitive_objects")
    x = inputs(plan, ft)
    struck = 0
    locs = sorted(places.at)
    writes = [k for k in locs if WRITE.search(linecache.getline(k[0], k[2]))]       # only guides the search: interrupt right after a write to an object
    for c in plan["cuts"]:
        cluster.start(dict(conf))
        where = None
        got = exc = None
        try:
            if c["k"] == "prim":
                where = failing_primitive(x, plan, ft, c)
                if where is None:
                    continue
            elif c["k"] == "callback":
                left = [c["n"]]

                def cb(*a):
                    left[0] -= 1
                    if left[0] == 0:
                        raise Stop("callback")
                where = "callback"
                got = do(x, plan, ft, progress_callback=cb)
            else:
                if c["by"] == "line" or not locs:
                    n = 1 + int(c["u"] * max(1, places.n))
                elif c["by"] == "write" and writes:
                    hits = places.at[writes[int(c["u"] * len(writes))]]
                    n = 1 + hits[int(c["u"] * 7919) % len(hits)]
                else:
                    hits = places.at[locs[int(c["u"] * len(locs))]]
                    n = hits[int(c["u"] * 7919) % len(hits)]
                with lines.interrupt_at(n, KINDS[c["k"]]) as counter:
                    try:
                        got = do(x, plan, ft)
                    finally:
                        where = counter.where
        except (KeyboardInterrupt, MemoryError, Stop) as e:
            exc = e
        except Exception as e:
            exc = e
        if where:
            struck += 1
            ctx.hit("probe.interrupted")
            ctx.hit("fault." + c["k"])
            if c["k"] == "callback":
                ctx.hit("probe.callback_failed")
            ctx.sigs.add("%s|%s|%s" % (plan["op"], c["k"], where))
            if exc is None and err is None:
                ctx.hit("probe.swallowed")
        ctx.event("cut", c["k"], where, type(exc).__name__)
        if exc is None and err is None and got is not None:
            same(outcome(got, plan), undisturbed, "interrupted_result", "the call interrupted at %s (%s) returned a different result" % (where, c["k"]))
    if struck > 1:
        ctx.hit("probe.twice_interrupted")
    check(x, ref, ctx, "after %s" % [c["k"] for c in plan["cuts"]])
    cluster.start(dict(conf))
    try:
        again = outcome(do(x, plan, ft), plan)
        aerr = None
    except Exception as e:
        again, aerr = None, e
    if (aerr is None) != (err is None) or (err is not None and type(aerr) is not type(err)):
        raise Violation("repeat_outcome", "undisturbed: %r, repeated after %s: %s" % (err, plan["cuts"], calls.describe(aerr) if aerr is not None else "returns"))
    if err is None:
        same(again, undisturbed, "repeat_differs", "repeating the call after %s" % plan["cuts"])
    check(x, ref, ctx, "after repeating the call")
    ctx.nontrivial = struck > 0
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"op": plan["op"], "lines": places.n, "places": len(places.at), "cuts": [c["k"] for c in plan["cuts"]]}


def failing_primitive(x, plan, ft, c):
    """The call with one primitive failing at its n-th use; raises what the call raises."""
    feats, seen = [], set()
    todo = list(x["fs"])
    while todo:
        f = todo.pop(0)
        if id(f) in seen:
            continue
        seen.add(id(f))
        feats.append(f)
        todo += f.base_features
    feats = [f for f in feats if getattr(f, "primitive", None) is not None and type(f).__name__ not in ("IdentityFeature", "DirectFeature")]
    if not feats:
        return None
    f = feats[int(c["u"] * len(feats))]
    left = [c["n"]]
    cls = type(f.primitive)
    orig = cls.get_function

    def get(self, *a, **k):
        fn = orig(self, *a, **k)
        if isinstance(fn, str):
            left[0] -= 1
            if left[0] == 0:
                raise Stop("primitive")
            return fn

        def call(*p, **q):
            left[0] -= 1
            if left[0] == 0:
                raise Stop("primitive")
            return fn(*p, **q)
        return call
    cls.get_function = get
    try:
        do(x, plan, ft)
    except Stop:
        pass
    finally:
        cls.get_function = orig
    return "primitive" if left[0] <= 0 else None


def check(x, ref, ctx, when):
    d = escmp.diff(ref, state(x))
    if d:
        raise Violation("input_altered", "%s: %s (before versus after)" % (when, d))


def same(a, b, cls, what):
    d = escmp.diff(b, a)
    if d:
        raise Violation(cls, "%s: %s" % (what, d))
