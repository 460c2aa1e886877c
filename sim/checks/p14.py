"""P14: DFS and feature matrices are reproducible across processes and restarts."""
import copy
import random

from sim import calls, escmp, peer, storage, util
from sim import workload as W
from sim.checks import p12
from sim.util import Violation

PROP = "P14"
LEVEL = "exploration"
TECHNIQUE = ("the same seeded inputs carried out in several simulated processes that differ in hash seed, address layout, clock, time zone, random state, "
             "process history and order of unordered inputs; everything observable compared")
NOTE = ("Each run repeats one generated dfs, calculation, save and encoding in three interpreters with different hash seeds, clocks, earlier history and "
        "permuted sets and keyword options, and compares names, order, definitions, saved documents and matrices; definitions saved by one are loaded by another.")
RUNS = {"quick": 200, "thorough": 15000}
RUN_TIMEOUT = 120
RULE = ("one run = one generated EntitySet and dfs call carried out in three processes; distinct_nontrivial counts distinct (primitives, options, process "
        "environment) signatures of runs that built at least four features")
MEASURE = "distinct (primitive sets, options, perturbations)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "hash randomisation of real interpreters"]
STUB = ["wall clock: build/libftsim.so", "process history: generated calls made before"]
ASSUMPTIONS = ["primitives whose result is documented to depend on the moment they run are not calculated without a cutoff time"]
PROBES = ["many_features", "max_features", "groupby", "where", "options", "seed_feature", "permuted", "history", "other_clock", "other_tz", "cross_load", "encoded",
          "matrix", "primitive_set", "interesting", "two_inputs", "raises", "long_table"]
SHRINK = ["agg", "trans", "groupby", "where", "extras", "marks", "case.ds.entities.*.rows"]
IS_PEER = False
SEEDS = [[3, 77], [12, 0], [500, 2 ** 31], [1, 8], [19, 23], [6, 4096], [31337, 5], [2, 9999]]


def WARMUP():
    import os
    if IS_PEER:
        return
    k = [0, 1, 7, 42, 1234, 99991, 271828, 4000000000].index(int(os.environ["PYTHONHASHSEED"]))
    peer.start(PROP, [{"PYTHONHASHSEED": SEEDS[k][0], "TZ": "Asia/Tokyo"}, {"PYTHONHASHSEED": SEEDS[k][1], "TZ": "America/St_Johns"}])


def gen(rng, i):
    while True:
        plan = p12.gen(rng, i)
        if plan["op"] == "dfs":
            break
    plan["cuts"] = []
    plan["bad"] = None
    plan["only"] = rng.random() < 0.4
    if rng.random() < 0.5:
        plan["trans"] = sorted(set(plan["trans"] + rng.sample(["add_numeric", "subtract_numeric", "multiply_numeric", "divide_numeric", "equal", "not_equal", "and", "or",
                                                               "greater_than", "less_than", "multiply_boolean", "modulo_numeric"], 3)))
    if rng.random() < 0.3:
        plan["agg"] = sorted(set(plan["agg"] + ["trend", "n_most_common"]))
    plan["max"] = rng.choice([-1, -1, 5, 9, 17]) if plan["only"] else rng.choice([5, 9, 14])
    for e in plan["case"]["ds"]["entities"]:
        if rng.random() < 0.25:
            plan["extras"].append({"e": e["id"], "k": "float32", "n": "X", "seed": rng.randrange(10 ** 6), "nulls": False})
    plan["encode"] = rng.random() < 0.4
    plan["mark_all"] = rng.random() < 0.3
    plan["as_set"] = rng.random() < 0.3
    # types of a long table have to be inferred; what decides them is close to the limit
    plan["infer"] = {"rows": rng.randint(9000, 12500), "seed": rng.randrange(10 ** 6), "off": rng.choice([-1, 0, 0, 1])} if rng.random() < 0.15 else None
    plan["peers"] = [{"perm": rng.choice([0, rng.randrange(1, 10 ** 6)]), "clock": rng.choice([0, 10 ** 6, -4 * 10 ** 8, 10 ** 9]), "tick": rng.choice([0, 0.01]),
                      "rand": rng.randrange(10 ** 6), "history": rng.choice([0, 0, 1, 2])} for _ in range(2)]
    return plan


def shuffled(x, r):
    x = list(x)
    if r:
        r.shuffle(x)
    return x


def long_table(o):
    """Texts with a mean length, and spans with a share of different values, at the limits of the inference."""
    import pandas as pd
    r = random.Random(o["seed"])
    n = o["rows"]
    long = n // 2 + o["off"] * 20
    texts = ["l" * 90] * long + ["short text"] * (n - long)
    few = n // 20 + o["off"] * 3
    spans = list(range(few)) + [0] * (n - few)
    r.shuffle(texts)
    r.shuffle(spans)
    return pd.DataFrame({"long_id": range(n), "note": texts, "took": pd.to_timedelta(spans, unit="s"), "word": [r.choice("abc") for _ in range(n)]})


def observe(req):
    """Everything a user can see of one dfs / calculation / save, as plain data."""
    import json
    import warnings

    import numpy as np

    import featuretools as ft
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    plan, v = req["plan"], req["v"]
    Clock.start(1600000000 + v["clock"])
    Clock.tick(v["tick"])
    random.seed(v["rand"])
    np.random.seed(v["rand"])
    for h in range(v["history"]):
        other = copy.deepcopy(plan)
        other["trans"] = other["trans"][h:][::-1] + ["month"]
        other["case"]["ds"]["id"] = "unrelated" if h else "es"
        try:
            y = p12.inputs(other, ft)
            p12.do(y, dict(other, only=bool(h)), ft, features_only=bool(h))
        except Exception:
            pass
    if "load" in req:
        x = p12.inputs(plan, ft)
        fs = ft.load_features(req["load"])
        out = {"loaded": [p12.feature(f) for f in fs]}
        if not plan["only"]:
            out["matrix"] = p12.cells(ft.calculate_feature_matrix(fs, x["es"], **calls.cutoff_args(plan["case"])))
        return out
    r = random.Random(v["perm"]) if v["perm"] else None
    x = p12.inputs(plan, ft)
    kw = x["kw"]
    for k in ("agg_primitives", "trans_primitives", "groupby_trans_primitives", "where_primitives"):
        kw[k] = shuffled(kw[k], r)
        if plan["as_set"]:
            kw[k] = set(kw[k])
    for k in ("ignore_entities", "drop_contains", "drop_exact", "allowed_paths"):
        if kw.get(k):
            kw[k] = shuffled(kw[k], r)
    for k in ("primitive_options", "ignore_variables"):
        if kw.get(k):
            kw[k] = {n: kw[k][n] for n in shuffled(kw[k], r)}
    kw = {k: kw[k] for k in shuffled(kw, r)}
    if plan["mark_all"]:
        x["es"].add_interesting_values(max_values=3)
    if plan.get("infer"):
        x["es"].entity_from_dataframe("long_table", long_table(plan["infer"]), index="long_id")
    out = {"types": {e.id: [[q.id, q.type_string] for q in e.variables] for e in x["es"].entities}}
    out.update({"interesting": {e.id: {q.id: [escmp.plain(z) for z in q.interesting_values] for q in e.variables} for e in x["es"].entities}})
    got = ft.dfs(**kw)
    fm, fl = (None, got) if plan["only"] else got
    out["features"] = [p12.feature(f) for f in fl]
    out["described"] = [ft.describe_feature(f) for f in fl[:12]]
    text = ft.save_features(fl)
    out["saved"] = json.loads(text)
    out["saved_order"] = list(out["saved"]["feature_definitions"])
    out["text"] = text
    out["metadata"] = json.dumps(x["es"].metadata.id)
    if fm is not None:
        out["matrix"] = p12.cells(fm)
        if plan["encode"]:
            try:
                efm, efl = ft.encode_features(fm, fl, top_n=3)
            except Exception as e:
                out["encode_error"] = type(e).__name__
            else:
                out["encoded"] = p12.cells(efm)
                out["encoded_features"] = [f.get_name() for f in efl]
    p = ft.list_primitives()
    out["primitives"] = sorted(zip(p["name"], p["type"]))
    return out


def run(plan, ctx):
    case = plan["case"]
    base = {"perm": 0, "clock": 0, "tick": 0, "rand": 0, "history": 0}
    kind, ref = util.in_process(lambda: observe({"plan": plan, "v": base}))
    if kind == "exc":
        ref = [ref[0], ref[1], ref[2]]
    kind, ref = plain(kind, ref)
    if kind == "ok":
        if len(ref["features"]) >= 8:
            ctx.hit("probe.many_features")
        if any(len(f[8]) == 2 for f in ref["features"]):
            ctx.hit("probe.two_inputs")
        for k, p in (("matrix", "matrix"), ("encoded", "encoded")):
            if k in ref:
                ctx.hit("probe." + p)
    else:
        ctx.hit("probe.raises")
    if plan.get("infer"):
        ctx.hit("probe.long_table")
    if plan["max"] > 0:
        ctx.hit("probe.max_features")
    for k in ("groupby", "where"):
        if plan[k]:
            ctx.hit("probe." + k)
    for k, p in (("opts", "options"), ("seed_feature", "seed_feature"), ("mark_all", "interesting"), ("as_set", "primitive_set")):
        if plan[k]:
            ctx.hit("probe." + p)
    for n, v in enumerate(plan["peers"]):
        ctx.hit("probe.other_tz")
        ctx.hit("fault.other_process")
        if v["perm"]:
            ctx.hit("probe.permuted")
            ctx.hit("fault.permuted_sets")
        if v["history"]:
            ctx.hit("probe.history")
            ctx.hit("fault.process_history")
        if v["clock"]:
            ctx.hit("probe.other_clock")
            ctx.hit("fault.clock_jump")
        k2, got = plain(*peer.ask(n, {"plan": plan, "v": v}))
        if k2 != kind:
            raise Violation("outcome", "process %s: %s, here: %s" % (v, got if k2 != "ok" else k2, ref if kind != "ok" else kind))
        if kind != "ok":
            if got[0] != ref[0]:
                raise Violation("outcome", "process %s raises %s, here %s" % (v, got, ref))
            continue
        for part in ("types", "interesting", "features", "described", "saved_order", "saved", "matrix", "encoded", "encoded_features", "encode_error", "primitives", "metadata"):
            d = escmp.diff(got.get(part), ref.get(part), part)
            if d:
                raise Violation("differs_" + part, "other process (hash seed %s, %s) versus here: %s" % (peer.PEERS[n][0], v, d))
        if got["text"] != ref["text"]:
            raise Violation("differs_text", "the saved documents differ as text")
    if kind == "ok":
        ctx.hit("probe.cross_load")
        k2, got = plain(*peer.ask(plan["_i"] if "_i" in plan else 0, {"plan": plan, "v": plan["peers"][0], "load": ref["text"]}))
        if k2 != "ok":
            raise Violation("cross_load", "features saved here cannot be used there: %s" % (got,))
        d = escmp.diff(got["loaded"], ref["features"], "loaded")
        if d:
            raise Violation("cross_load", d)
        if "matrix" in ref:
            d = escmp.diff(got["matrix"], ref["matrix"], "matrix")
            if d:
                raise Violation("cross_matrix", d)
        ctx.event(ref["text"][:2000], [f[1] for f in ref["features"]])
        ctx.nontrivial = len(ref["features"]) >= 4
    ctx.sigs.add("%s|%s|%s|%s" % (plan["agg"], plan["trans"], plan["max"], [(v["history"], bool(v["perm"])) for v in plan["peers"]]))
    ctx.sample = {"features": len(ref["features"]) if kind == "ok" else ref[0], "max": plan["max"], "peers": [peer.PEERS[k][0] for k in (0, 1)]}


def plain(kind, v):
    import json
    return kind, json.loads(json.dumps(v, default=str))
