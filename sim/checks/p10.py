"""P10: saved feature definitions reload to the same features or not at all."""
import json
import os

from sim import storage, util
from sim import workload as W
from sim.util import Violation

PROP = "P10"
LEVEL = "fault_enumeration"
TECHNIQUE = "simulated disk and process crashes at seeded operations while feature lists are saved and loaded; each load compared structurally and by calculation with the lists saved"
NOTE = ("Generated feature lists (own trees with arguments, names, conditions and time spans, and the output of dfs) are saved as text, through handles and to "
        "paths, loaded in other processes and saved again, with crashes and disk errors at seeded operations.")
RUNS = {"quick": 190, "thorough": 30000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated feature list saved and loaded as text, handle and path, calculated from both lists, and overwritten by a second list under "
        "two to four injected crashes, disk errors or torn writes; distinct_nontrivial counts distinct (features, fault, operation, outcome) digests")
MEASURE = "distinct (feature list, fault kinds, operations, outcomes) digests"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "kernel file system below a scratch directory"]
STUB = ["system calls below the scratch directory: build/libftsim.so decides each one", "wall clock"]
ASSUMPTIONS = ["writes completed before a process crash survive it (no power loss)"]
PROBES = ["crash", "enospc", "eio", "short", "eio_read", "short_read", "read_old", "read_new", "read_failed", "handle", "text", "dfs", "renamed", "shared",
          "slice", "where", "use_previous", "groupby", "arguments", "matrix_equal", "read_own_text_twice", "numeric_time", "interesting_values"]
SHRINK = ["trials", "specs", "specs2", "marks"]


def arg_specs(rng, ds, e):
    """Features of e with primitives that take arguments."""
    ent = W.entity(ds, e)
    cols = {}
    for c in ent["cols"]:
        cols.setdefault(c["t"], []).append(c["n"])
    out = []
    ident = lambda v: {"k": "id", "e": e, "v": v}
    if "num" in cols:
        out += [{"k": "tr", "p": p, "b": [ident(rng.choice(cols["num"]))], "e": e, "args": {"value": rng.choice([0, 1, -3, 2.5, 0.1 + 0.2, 10 ** 12])}}
                for p in ("AddNumericScalar", "DivideByFeature", "ModuloNumericScalar", "SubtractNumericScalar", "ScalarSubtractNumericFeature", "MultiplyNumericScalar",
                          "LessThanScalar")]
    if "cat" in cols:
        out.append({"k": "tr", "p": "IsIn", "b": [ident(cols["cat"][0])], "e": e, "args": {"list_of_outputs": rng.choice([["a"], ["a", "c"], [], ["é", 'q"t', 1]])}})
        out.append({"k": "tr", "p": rng.choice(["EqualScalar", "NotEqualScalar"]), "b": [ident(cols["cat"][0])], "e": e, "args": {"value": rng.choice(["a", "ü", "", 0, None, "None"])}})
    if "sectime" in cols or "dt" in cols:
        v = (cols.get("dt") or cols.get("sectime"))[0]
        if not ds["numeric_time"]:
            out.append({"k": "tr", "p": "TimeSince", "b": [ident(v)], "e": e, "args": {"unit": rng.choice(["hours", "minutes", "seconds", "days"])}})
    for i, (p, c, fk) in enumerate(ds["rels"]):
        if p != e:
            continue
        ch = W.entity(ds, c)
        cc = {x["t"]: x["n"] for x in ch["cols"]}
        ci = lambda v: {"k": "id", "e": c, "v": v}
        if "num" in cc:
            out.append({"k": "agg", "p": "Mean", "b": [ci(cc["num"])], "e": e, "path": [i], "args": {"skipna": rng.random() < 0.5}})
        if "cat" in cc:
            a = {"k": "agg", "p": "NMostCommon", "b": [ci(cc["cat"])], "e": e, "path": [i], "args": {"n": rng.choice([1, 2, 3, 4])}}
            out += [a, {"k": "agg", "p": "Entropy", "b": [ci(cc["cat"])], "e": e, "path": [i], "args": rng.choice([{}, {"dropna": True}, {"base": 2}, {"dropna": True, "base": 10}])}]
            if a["args"]["n"] > 1:
                out.append({"k": "slice", "b": a, "n": rng.randrange(a["args"]["n"])})
        if "time" in cc and not ds["numeric_time"]:
            out.append({"k": "agg", "p": rng.choice(["TimeSinceLast", "TimeSinceFirst", "AvgTimeBetween"]), "b": [ci(cc["time"])], "e": e, "path": [i],
                        "args": {"unit": rng.choice(["hours", "minutes", "seconds", "days"])}})
            if "num" in cc:
                out.append({"k": "agg", "p": "Trend", "b": [ci(cc["num"]), ci(cc["time"])], "e": e, "path": [i]})
    return out


def gen_list(rng, ds, tgt):
    g = W.FeatGen(rng, ds)
    specs = g.features(tgt, rng.randint(1, 5))
    pool = arg_specs(rng, ds, tgt)
    specs += rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 3])))
    if rng.random() < 0.4:
        r = g.g_gb(tgt, 2)
        if r:
            specs.append(r[0])
    for k, s in enumerate(list(specs)):
        if rng.random() < 0.15 and "name" not in s:
            n = dict(s, name=rng.choice(["my name", "größe", 'q"uote', "a: b", "x\ny", "SUM(x)", "%s"]) + str(k))
            specs[k] = n
            if rng.random() < 0.5 and s["k"] in ("agg", "tr", "gb") and s["p"] in ("Sum", "Mean", "CumSum", "Absolute", "Negate", "Diff", "AddNumeric"):
                specs.append({"k": "tr", "p": "Negate", "b": [n], "e": tgt})
    rng.shuffle(specs)
    return specs


def gen(rng, i):
    ds = W.gen_dataset(rng, sizes=(2, 8))
    tgt = rng.choice([e["id"] for e in ds["entities"]])
    plan = {"ds": ds, "tgt": tgt, "marks": [m for m in storage.gen_marks(rng, ds, []) if not m.get("times")], "specs": gen_list(rng, ds, tgt), "specs2": gen_list(rng, ds, tgt), "dfs": None}
    if rng.random() < 0.35:
        agg = ["count", "sum", "mean", "max", "mode", "num_unique", "last", "percent_true", "trend", "std", "n_most_common", "time_since_last", "sim_min_max"]
        tr = ["year", "month", "is_null", "cum_sum", "add_numeric", "and", "equal", "absolute", "time_since_previous", "diff", "greater_than", "haversine", "sim_split"]
        plan["dfs"] = {"agg": rng.sample(agg, rng.randint(0, 3)), "trans": rng.sample(tr, rng.randint(0, 2)), "where": rng.sample(["count", "mean"], rng.randint(0, 2)),
                       "gb": rng.sample(["cum_sum", "cum_count", "percentile"], rng.choice([0, 0, 1])), "depth": rng.choice([1, 2, 2, 3]), "max": rng.choice([10, 30, 80])}
    trials = []
    for _ in range(rng.choice([2, 3, 4])):
        trials.append({"kind": rng.choice(["crash", "crash", "enospc", "eio", "short"]), "pos": rng.random(), "frac": rng.choice([0, 0.3, 0.9]), "sticky": rng.random() < 0.4,
                       "first": rng.random() < 0.25, "handle": rng.random() < 0.3,
                       "read": rng.choice([None, {"kind": "eio_read", "pos": rng.random()}, {"kind": "short_read", "pos": rng.random()}])})
    plan["trials"] = trials
    return plan


# ---------------------------------------------------------------- description of features
def prim(p):
    cls = type(p)
    import inspect
    args = {}
    for n, a in inspect.signature(cls).parameters.items():
        if a.kind == a.POSITIONAL_OR_KEYWORD:
            v = getattr(p, n)
            args[n] = [type(v).__name__, v]
    return [cls.__name__, cls.__module__, args]


def rel(r):
    return [r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id]


def describe(f, memo=None):
    """Everything about a feature, recursively, as plain data."""
    memo = {} if memo is None else memo
    if id(f) in memo:
        return memo[id(f)][1]
    d = {"type": type(f).__name__, "entity": f.entity.id, "name": f.get_name(), "names": f.get_feature_names(), "given": f._name, "return": f.variable_type.__name__,
         "outputs": f.number_output_features, "base": [describe(b, memo) for b in f.base_features], "path": [[fw, rel(r)] for fw, r in f.relationship_path],
         "primitive": prim(f.primitive) if f.primitive is not None else None}
    up = getattr(f, "use_previous", None)
    d["use_previous"] = None if up is None else sorted((u, repr(v)) for u, v in up.times.items())
    w = getattr(f, "where", None)
    d["where"] = None if w is None else describe(w, memo)
    g = getattr(f, "groupby", None)
    d["groupby"] = None if g is None else describe(g, memo)
    if d["type"] == "IdentityFeature":
        d["variable"] = [f.variable.entity_id, f.variable.id, type(f.variable).__name__]
    if d["type"] == "FeatureOutputSlice":
        d["n"] = f.n
    memo[id(f)] = (f, d)
    return d


def shared(fs):
    """-> groups of positions in the depth-first walk that are the same object, and whether equal names are the same object"""
    seen, by, dup = {}, {}, None
    out = []

    def walk(f):
        nonlocal dup
        k = seen.setdefault(id(f), len(seen))
        out.append(k)
        n = f.unique_name()
        if by.setdefault(n, f) is not f:
            dup = n
        if out.count(k) > 1:
            return
        for b in f.get_dependencies():
            walk(b)
    for f in fs:
        walk(f)
    return out, dup


def whole(fs):
    return {"features": [describe(f) for f in fs]}


def run(plan, ctx):
    import io
    import warnings

    import featuretools as ft
    from sim import escmp, prims, seams
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    ds = plan["ds"]
    if not plan["specs"] or not plan["specs2"]:
        raise util.Invalid("no features")
    root = ctx.scratch()
    es = storage.build(ds, [], plan["marks"])
    fs1 = W.build_features(plan["specs"], es)
    fs2 = W.build_features(plan["specs2"], es)
    if plan["dfs"]:
        d = plan["dfs"]
        custom = {"sim_min_max": prims.SimMinMax, "sim_split": prims.SimSplit}
        try:
            found = ft.dfs(entityset=es, target_entity=plan["tgt"], agg_primitives=[custom.get(x, x) for x in d["agg"]],
                           trans_primitives=[custom.get(x, x) for x in d["trans"]],
                           where_primitives=[x for x in d["where"] if x in d["agg"]], groupby_trans_primitives=d["gb"], max_depth=d["depth"], features_only=True)
        except AssertionError:
            found = []
        known = {f.unique_name() for f in fs1}
        for f in found[:d["max"]]:
            if f.unique_name() not in known:
                fs1.append(f)
    fs1, fs2 = distinct(fs1), distinct(fs2)
    want = {1: whole(fs1), 2: whole(fs2)}
    meta = escmp.metadata(es)

    def compare(got, k):
        return escmp.diff(want[k], got)

    # --- as text
    text = {k: ft.save_features(fs) for k, fs in ((1, fs1), (2, fs2))}
    docs = {k: json.loads(t) for k, t in text.items()}
    if escmp.diff(want[1], whole(fs1)) or escmp.diff(want[2], whole(fs2)):
        raise Violation("save-changes-features", "saving changed the features")
    if ft.save_features(fs1) != text[1]:
        raise Violation("save-differs", "saving the same list twice gives two documents")
    for k, fs in ((1, fs1), (2, fs2)):
        got = ft.load_features(text[k])
        d = compare(whole(got), k)
        if d:
            raise Violation("loaded-differs", "text: " + d)
        _, dup = shared(got)
        if dup:
            raise Violation("sharing-lost", "%s is two objects after loading" % dup)
        es2 = got[0].entityset
        dm = escmp.diff(strip(meta), strip(escmp.canon(escmp.describe(es2, data=False, lti=False))))
        if dm:
            raise Violation("entityset-differs", "the features' entityset after loading: " + dm)
        again = json.loads(ft.save_features(got))
        if norm(again) != norm(docs[k]):
            raise Violation("resave-differs", "saving the loaded features gives another document: %s" % escmp.diff(norm(docs[k]), norm(again)))
        if k == 1:
            loaded = got
            got2 = ft.load_features(text[k])
            if compare(whole(got2), k) or compare(whole(got), k):
                raise Violation("load-repeat", "loading the same text twice gives different features")
    # --- they calculate the same
    calculable = [(a, b) for a, b in zip(fs1, loaded) if type(a).__name__ != "FeatureOutputSlice"]
    if calculable:
        cut = None if ds["numeric_time"] else W.ts(ds, ds["slots"] * ds["step"])
        kw = {} if cut is None else {"cutoff_time": cut}
        if ds["numeric_time"]:
            kw = {"cutoff_time": ds["slots"]}

        def matrix(fs):
            try:
                return ft.calculate_feature_matrix(fs, es, **kw), None
            except Exception as ex:
                return None, ex
        a, ea = matrix([x for x, _ in calculable])
        b, eb = matrix([y for _, y in calculable])
        if ea is None:
            if eb is not None:
                raise Violation("matrix-differs", "the loaded features cannot be calculated: %s" % " | ".join(util.exc_info(eb)[2].splitlines()[-4:]))
            same = list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(
                [escmp.plain(x) for x in a[c]] == [escmp.plain(x) for x in b[c]] for c in set(a.columns))
            if not same:
                bad = [c for c in a.columns if c not in b.columns or [escmp.plain(x) for x in a[c]] != [escmp.plain(x) for x in b[c]]]
                raise Violation("matrix-differs", "the loaded features calculate other values: %r" % bad[:3])
            ctx.hit("probe.matrix_equal")

    # --- on the simulated disk
    def proc(fn, fault=None, path=None):
        def body():
            disk = seams.Disk(path, faults=[fault] if fault else [])
            disk.on_crash = lambda: util.crash_note({"fired": disk.fired})
            val = err = None
            with disk:
                try:
                    val = fn()
                except BaseException as ex:
                    err = util.exc_info(ex)
            return {"val": val, "err": err, "fired": disk.fired, "n": disk.n, "nr": disk.nr, "broken": disk.error}
        kind, v = util.in_process(body)
        if kind == "crash":
            return {"crash": True, "fired": v["fired"], "err": None, "val": None}
        if kind != "ok":
            raise RuntimeError("harness: %s %r" % (kind, v))
        if v["broken"]:
            raise RuntimeError("harness: " + v["broken"])
        return v

    def save(fs, path, handle):
        if handle:
            with open(path, "w") as f:
                ft.save_features(fs, f)
        else:
            ft.save_features(fs, path)

    def load(path, handle):
        if handle:
            with open(path) as f:
                return whole(ft.load_features(f))
        return whole(ft.load_features(path))

    probes = {"text": True, "dfs": bool(plan["dfs"]), "renamed": "'given': '" in repr(want), "slice": "FeatureOutputSlice" in repr(want[1]),
              "where": "'where': {" in repr(want), "use_previous": "'use_previous': [" in repr(want), "groupby": "'groupby': {" in repr(want),
              "arguments": any(s.get("args") for s in plan["specs"]), "shared": len(set(shared(fs1)[0])) < len(shared(fs1)[0]),
              "numeric_time": ds["numeric_time"], "interesting_values": bool(plan["marks"]), "read_own_text_twice": True}
    outs = []
    for k, t in enumerate(plan["trials"]):
        d = os.path.join(root, "d%d" % k)
        os.mkdir(d)
        q = os.path.join(d, "list.json")
        if not t["first"]:
            r = proc(lambda: save(fs1, q, t["handle"]), path=d)
            if r["err"]:
                raise Violation("save-raises", tail(r["err"]))
            r = proc(lambda: load(q, not t["handle"]), path=d)
            if r["err"] or compare(r["val"], 1):
                raise Violation("loaded-differs", "%s: %s" % ("handle" if t["handle"] else "path", tail(r["err"]) if r["err"] else compare(r["val"], 1)))
        probe = proc(lambda: save(fs2, os.path.join(d, "probe.json"), t["handle"]), path=d)
        fault = {"at": 1 + int(t["pos"] * max(1, probe["n"])), "kind": t["kind"], "frac": t["frac"], "sticky": t["sticky"]}
        r = proc(lambda: save(fs2, q, t["handle"]), fault, d)
        fired = [(f["kind"], f["op"], f["n"]) for f in r["fired"]]
        for f in r["fired"]:
            ctx.hit("fault." + f["kind"])
            probes[f["kind"]] = True
        what = "%s of the second list %s after %s" % ("first save" if t["first"] else "overwriting save", "through a handle" if t["handle"] else "to a path", fired)
        returned = not r.get("crash") and r["err"] is None
        if r["err"] is not None and not r["fired"]:
            raise Violation("save-raises", "%s: %s" % (what, tail(r["err"])))
        out = judge(proc(lambda: load(q, False), path=d), what, {2} if returned or t["first"] else {1, 2}, compare, must=returned)
        if t["read"] and out != "failed":
            rf = {"kind": t["read"]["kind"], "at_read": 1 + int(t["read"]["pos"] * max(1, probe["nr"]))}
            now = {"new": 2, "old": 1}[out]
            rr = proc(lambda: load(q, t["handle"]), rf, d)
            for f in rr["fired"]:
                ctx.hit("fault." + f["kind"])
                probes[f["kind"]] = True
            judge(rr, what + " then loading with " + t["read"]["kind"], {now}, compare, must=not rr["fired"])
            judge(proc(lambda: load(q, t["handle"]), path=d), what + " then loading again", {now}, compare, must=True)
        again = proc(lambda: save(fs2, q, t["handle"]), path=d)
        if again["err"]:
            raise Violation("resave-fails", "%s: %s" % (what, tail(again["err"])))
        judge(proc(lambda: load(q, t["handle"]), path=d), what + " then saved again", {2}, compare, must=True)
        probes["read_" + out] = True
        probes["handle"] = probes.get("handle") or t["handle"]
        outs.append([fired, out, t["first"], t["handle"]])
    for name, c in probes.items():
        if c:
            ctx.hit("probe." + name)
    ctx.nontrivial = True
    dg = util.digest([want, outs])
    ctx.sigs.add(dg)
    ctx.event(outs, dg)
    ctx.sample = {"features": len(fs1), "second": len(fs2), "dfs": bool(plan["dfs"]), "outcomes": outs}


def distinct(fs):
    """Names identify features in the document: keep one feature per name, also among dependencies."""
    names, out = {}, []
    for f in fs:
        every = [f] + f.get_dependencies(deep=True)
        ds = {}
        ok = True
        for x in every:
            n, d = x.unique_name(), repr(describe(x))
            if names.get(n, d) != d or ds.get(n, d) != d:
                ok = False
            ds[n] = d
        if ok:
            names.update(ds)
            out.append(f)
    return out or fs[:1]


def strip(m):
    m = json.loads(json.dumps(m, default=repr))
    for e in m["entities"].values():
        for k in ("has_lti", "kind", "interesting"):
            e.pop(k, None)
    return m


def norm(doc):
    doc = json.loads(json.dumps(doc))
    doc.pop("ft_version", None)
    doc["entityset"].pop("path", None)
    for e in doc["entityset"]["entities"].values():
        e["loading_info"] = None                         # the loaded features' entityset has no data
        e["properties"].pop("last_time_index", None)
    return doc


def tail(err):
    return " | ".join(err[2].strip().splitlines()[-5:])[-700:] if err and len(err) > 2 else str(err)


def judge(r, what, allowed, compare, must):
    if r["err"] is not None:
        if must:
            raise Violation("load-fails", "%s: %s" % (what, tail(r["err"])))
        return "failed"
    ds = {}
    for k in allowed:
        d = compare(r["val"], k)
        if d is None:
            return "new" if k == 2 else "old"
        ds[k] = d
    raise Violation("mixture", "%s: %s" % (what, ds))
