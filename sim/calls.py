"""Shared pieces of the checks: calls of calculate_feature_matrix described by a JSON plan."""
from sim import model as M
from sim import workload as W
from sim.util import Violation, exc_info


DASK_FEATURES = dict(agg=W.DASK_AGG, trans=W.DASK_TRANS, full=False, groupby=False, prev=False, multi=False, calc_time=False, slices=False)


def gen_case(rng, windows=0.2, approximate=0.0, single=0.25, nspecs=(1, 4), ds=None, featkw=None, maxrows=14, dskw=None):
    ds = ds or W.gen_dataset(rng, **(dskw or {}))
    tgt = rng.choice(ds["entities"])["id"]
    specs = W.FeatGen(rng, ds, **(featkw or {})).features(tgt, rng.randint(*nspecs))
    case = {"ds": ds, "tgt": tgt, "specs": specs, "include": rng.random() < 0.7, "window": None, "approx": None,
            "in_index": rng.random() < 0.5, "via": rng.choice(["cfm", "cfm", "cfm", "dfs"])}
    if not ds["numeric_time"] and rng.random() < windows:
        case["window"] = rng.choice([[2 * ds["step"] + 1, "m"], [ds["step"], "m"], [5 * ds["step"], "m"], [12, "h"], [2, "d"], [1, "w"],
                                     [[1, "h"], [2 * ds["step"], "m"]]])
    if not ds["numeric_time"] and rng.random() < approximate:
        case["approx"] = rng.choice([[ds["step"] * 2, "m"], [ds["step"] * 3 + 7, "m"], [1, "d"], [6, "h"]])
    if rng.random() < single and not case["approx"]:
        ids = [r[0] for r in W.entity(ds, tgt)["rows"]]
        sub = rng.sample(ids, rng.randint(1, len(ids)))
        if rng.random() < 0.2:
            sub.append(W.idval(ds, 955))
        case["single"] = {"t": rng.randint(0, ds["slots"] + 1) * ds["step"], "ids": None if rng.random() < 0.4 else sub}
    else:
        case["ct"] = W.gen_cutoffs(rng, ds, tgt, n=rng.randint(1, maxrows))
    if case["approx"] and not unapprox_agg(case):
        agg = W.FeatGen(rng, ds, **(featkw or {})).g_agg(tgt, 1)
        if agg is not None and agg[0]["k"] == "agg":
            specs.append(agg[0])
        if not unapprox_agg(case):
            case["approx"] = None
    return case


def approximated(case):
    """{(path of relationship indexes, repr of aggregation)} that approximate= applies to."""
    out = set()
    specs = case["specs"]
    for s in specs:
        if s["k"] != "dir" or used_fully(s, specs):
            continue
        path, b = (s["rel"],), s["b"]
        while b["k"] == "dir":
            path, b = path + (b["rel"],), b["b"]
        if b["k"] == "agg" and not used_fully(b, specs):
            out.add((path, repr(b)))
    return out


def used_fully(s, specs):
    """A requested feature built on s needs all rows of its entity."""
    r = repr(s)

    def dep(x):
        return any(repr(y) == r for y in M.subspecs(x) if y is not x)
    return any(dep(y) and y["k"] in ("tr", "gb") and y["p"] in W.FULL for x in specs for y in M.subspecs(x))


def unapprox_agg(case):
    """Some aggregation is needed that is not approximated."""
    ap = {r for _, r in approximated(case)}

    def has(s):
        if s["k"] == "agg":
            return True
        if s["k"] == "id":
            return False
        deps = list(s["b"]) if isinstance(s["b"], list) else [s["b"]]
        deps += [s[k] for k in ("where", "g") if s.get(k)]
        return any(has(d) for d in deps if repr(d) not in ap)
    return any(has(s) for s in case["specs"] if s["k"] != "id")


def cutoff_args(case):
    """Fresh keyword arguments for the call's cutoff input."""
    ds = case["ds"]
    kw = {"include_cutoff_time": case["include"], "cutoff_time_in_index": case["in_index"]}
    if case.get("window"):
        kw["training_window"] = window(case["window"])
    if case.get("approx"):
        import featuretools as ft
        kw["approximate"] = ft.Timedelta(*case["approx"])
    if "single" in case:
        kw["cutoff_time"] = W.ts(ds, case["single"]["t"])
        if case["single"]["ids"] is not None:
            kw["instance_ids"] = list(case["single"]["ids"])
    else:
        kw["cutoff_time"] = W.cutoff_frame(ds, case["tgt"], case["ct"])
    return kw


def window(w):
    return W.timedelta(w)


def rows_of(case, data=None):
    """[(instance, t)] the call must return, in order."""
    if "single" not in case:
        return [tuple(r) for r in case["ct"]["rows"]]
    t = case["single"]["t"]
    if case["single"]["ids"] is not None:
        return [(i, t) for i in case["single"]["ids"]]
    data = data or M.Data(case["ds"])
    v = M.View(data, t, case["window"], case["include"])
    return [(i, t) for i in v.ids(case["tgt"])]


def extra_columns(case):
    return case["ct"]["extra"] if "ct" in case else []


def index_of(case, rows):
    ds = case["ds"]
    if case["in_index"]:
        return [(i, t) for i, t in rows]
    return [i for i, t in rows]


def check_frame(case, fm, names, values=True, data=None, what="result"):
    """The matrix has exactly the requested rows, in order, with pass-through columns and the values
    of the reference model."""
    rows = rows_of(case, data)
    if len(fm) != len(rows):
        raise Violation("rows", "%s has %d rows, %d requested" % (what, len(fm), len(rows)))
    got = list(fm.index)
    for k, (i, t) in enumerate(rows):
        g = got[k]
        if case["in_index"]:
            ok = isinstance(g, tuple) and g[0] == i and M.close(g[1], float(t) - case["ds"].get("zero", 0))
        else:
            ok = g == i
        if not ok:
            raise Violation("order", "%s row %d is %r, requested (%r, %r)" % (what, k, g, i, t))
    cols = list(fm.columns)
    extra = extra_columns(case)
    if cols != names + extra:
        raise Violation("columns", "%s has columns %r, expected %r" % (what, cols, names + extra))
    for x in extra:
        v = list(fm[x])
        for k, r in enumerate(rows):
            if v[k] != W.pass_value(x, r):
                raise Violation("pass-through", "%s row %d %s: %r, expected %r" % (what, k, x, v[k], W.pass_value(x, r)))
    if values:
        exp = M.matrix(data or M.Data(case["ds"]), case["specs"], rows, case["window"], case["include"])
        d = M.diff_matrix(fm, names, exp)
        if d:
            raise Violation("values", "%s: %s" % (what, d))


def same(a, b, cls, what):
    d = M.frames_differ(a, b)
    if d:
        raise Violation(cls, "%s: %s" % (what, d))


def build(case):
    es = W.build_es(case["ds"])
    fs = W.build_features(case["specs"], es)
    return es, fs, M.feature_columns(fs)


def attempt(fn):
    """-> (value, None) or (None, exception)"""
    try:
        return fn(), None
    except Exception as e:
        return None, e


def describe(e):
    return " | ".join(exc_info(e)[2].strip().splitlines()[-6:])[-900:]


def rename_some(rng, specs, p=0.3):
    """Features given a name of their own, and some with several outputs, among the requested ones and their inputs."""
    n = [0]

    def go(s, top):
        s = dict(s)
        for k in ("b", "g", "where"):
            if isinstance(s.get(k), list):
                s[k] = [go(b, False) for b in s[k]]
            elif isinstance(s.get(k), dict):
                s[k] = go(s[k], False)
        if s["k"] in ("agg", "tr", "gb", "dir") and "name" not in s and rng.random() < (p if top else p / 3):
            n[0] += 1
            s["name"] = "renamed %d" % n[0]
        return s
    return [go(s, True) for s in specs]


def several_outputs(rng, ds, tgt):
    """A requested feature with several columns, or None."""
    for i, (p, c, fk) in rng.sample(list(enumerate(ds["rels"])), len(ds["rels"])):
        if p != tgt:
            continue
        ce = next(e for e in ds["entities"] if e["id"] == c)
        cats = [x["n"] for x in ce["cols"] if x["t"] == "cat"]
        if cats:
            v = rng.choice(cats)
            s = {"k": "agg", "p": "NMostCommon", "b": [{"k": "id", "e": c, "v": v}], "e": tgt, "path": [i], "args": {"n": rng.choice([2, 3])}}
            if rng.random() < 0.7:
                s["name"] = "most common"
            return s
    return None


def matrix(case, ctx, fs, es, **kw):
    """The feature matrix of the features, calculated directly or by dfs with the features as seeds (the other way users get matrices)."""
    import featuretools as ft
    names = [n for f in fs for n in f.get_feature_names()]
    if case.get("via") != "dfs" or len(set(names)) < len(names) or any(type(f).__name__ == "FeatureOutputSlice" for f in fs):
        return ft.calculate_feature_matrix(fs, es, **kw)
    ctx.hit("probe.via_dfs")
    kw.setdefault("cutoff_time_in_index", False)
    fm, found = ft.dfs(entityset=es, target_entity=fs[0].entity.id, agg_primitives=[], trans_primitives=[], max_depth=1, seed_features=list(fs),
                       return_variable_types="all", **kw)
    others = {n for f in found for n in f.get_feature_names()}
    lost = [n for n in names if n not in fm.columns]
    if lost:
        raise Violation("seed-feature-lost", "dfs does not calculate the seed features %s" % lost)
    return fm[names + [c for c in fm.columns if c not in others]]
