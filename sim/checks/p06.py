"""P06: training windows bound what is needed; a retention job may drop expired history."""
from sim import calls, util
from sim import model as M
from sim import workload as W
from sim.util import Violation

PROP = "P06"
LEVEL = "exploration"
TECHNIQUE = "simulated growing history with retention jobs: full against pruned history, against a reference model"
NOTE = ("A history grows and is updated step by step under a simulated clock; at chosen instants windowed features are calculated on the full "
        "history and on the one a retention job left, and last time indexes are compared with a recomputation. Trusts the evaluator.")
RUNS = {"quick": 800, "thorough": 50000}
RULE = ("one run = one generated history with up to three updates and up to four cutoff times, each calculated on full and pruned data; "
        "distinct_nontrivial counts distinct (features, cutoffs, window) digests of runs in which the retention job removed rows")
MEASURE = "distinct (feature list, cutoffs, window, pruned rows) digests"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas"]
STUB = ["wall clock: build/libftsim.so"]
ASSUMPTIONS = ["floating point sums are compared with a relative tolerance of 1e-7",
               "activity after the cutoff time reviving expired parents is P05's known finding: with last time indexes, histories here end at the cutoff time"]
PROBES = ["pruned", "lti_keeps_parent", "window_start_row", "excluded_cutoff", "updates", "calendar_window", "future_pruned", "string_window",
          "now_decides", "via_dfs"]
SHRINK = ["times", "updates", "case.specs", "case.ds.entities.*.rows"]
UNITS = {"s": "seconds", "m": "minutes", "h": "hours", "d": "days", "w": "weeks", "mo": "months", "Y": "years"}


def gen(rng, i):
    ds = W.gen_dataset(rng, numeric=False)
    case = calls.gen_case(rng, windows=0, single=0.0, ds=ds)
    s = ds["step"]
    case["window"] = rng.choice([[s, "m"], [2 * s, "m"], [3 * s, "m"], [2 * s + 1, "m"], [6, "h"], [1, "d"], [3, "d"], [1, "w"],
                             [[1, "h"], [s, "m"]], [[1, "d"], [2 * s, "m"]]])
    if s >= 720 and rng.random() < 0.4:
        case["window"] = rng.choice([[1, "mo"], [2, "mo"], [1, "Y"], [[1, "mo"], [1, "d"]]])
    times = sorted(set(rng.randint(0, ds["slots"] + 2) * s + rng.choice([0, 0, 0, 1]) for _ in range(rng.randint(1, 4))))
    # updates: (entity, how many of its rows are there at first)
    ups = []
    for e in rng.sample(ds["entities"], rng.randint(0, min(3, len(ds["entities"])))):
        ups.append({"e": e["id"], "first": rng.randint(1, len(e["rows"])), "lti": rng.random() < 0.8, "sorted": False})
    return {"case": case, "times": times, "updates": ups, "form": rng.choice(["obj", "str", "str2", "now"])}


def window_arg(w, form):
    import featuretools as ft
    if isinstance(w[0], list):
        return W.timedelta(w)
    v, u = w
    if form == "str" or (form == "str2" and u in ("mo", "Y")):
        return "%d %s" % (v, UNITS[u])
    if form == "str2":
        # the same span in another unit
        sec = v * {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}[u]
        return "%ds" % sec if sec % 3600 else "%d hours" % (sec // 3600)
    return ft.Timedelta(v, u)


def pruned(ds, data, t, win, inc):
    v = M.View(data, t, win, inc)
    out, removed = {}, 0
    for e in ds["entities"]:
        ix = e["cols"][0]["n"]
        keep = set()
        for r in v.visible(e["id"]):
            keep.add(r[ix])
        out[e["id"]] = [r for r in e["rows"] if r[0] in keep]
        removed += len(e["rows"]) - len(out[e["id"]])
    return out, removed


def check_lti(es, ds, data, what):
    for e in ds["entities"]:
        got = es[e["id"]].last_time_index
        if got is None:
            raise Violation("lti-missing", "%s: entity %s has no last time index" % (what, e["id"]))
        exp = data.lti[e["id"]]
        if len(got) != len(exp) or set(got.index) != set(exp):
            raise Violation("lti-rows", "%s: last time index of %s covers %r, expected %r" % (what, e["id"], sorted(map(str, got.index))[:8], sorted(map(str, exp))[:8]))
        for i, v in exp.items():
            if not M.close(got[i], None if v is None else float(v)):
                raise Violation("lti-value", "%s: last time index of %s[%r] is %r, expected minute %r" % (what, e["id"], i, got[i], v))


def run(plan, ctx):
    import featuretools as ft
    import pandas as pd
    from sim.seams import Clock
    case = plan["case"]
    ds, tgt, specs, win, inc = case["ds"], case["tgt"], case["specs"], case["window"], case["include"]
    epoch = (pd.Timestamp(W.BASE) - pd.Timestamp("1970-01-01")).total_seconds()
    Clock.start(epoch + ds["slots"] * ds["step"] * 60)
    # the history grows by updates, last time indexes being maintained
    rows = {e["id"]: list(e["rows"]) for e in ds["entities"]}
    first = {e: list(r) for e, r in rows.items()}
    for u in plan["updates"]:
        first[u["e"]] = first[u["e"]][:max(1, min(u["first"], len(first[u["e"]])))]
    if not all(first.values()):
        raise util.Invalid("an entity without rows")
    es = W.build_es(ds, first)
    if ds["lti"]:
        check_lti(es, ds, M.Data(ds, first), "first load")
    for u in plan["updates"]:
        first[u["e"]] = rows[u["e"]]
        ent = W.entity(ds, u["e"])
        es[u["e"]].update_data(W.frame(ds, ent, rows[u["e"]]), recalculate_last_time_indexes=u["lti"])
        if ds["lti"] and not u["lti"]:
            es.add_last_time_indexes(updated_entities=[u["e"]])
        ctx.hit("probe.updates")
        if ds["lti"]:
            check_lti(es, ds, M.Data(ds, first), "after updating " + u["e"])
    fs = W.build_features(specs, es)
    names = M.feature_columns(fs)
    data = M.Data(ds)
    tgt_ids = [r[0] for r in W.entity(ds, tgt)["rows"]]
    kw = {"include_cutoff_time": inc, "cutoff_time_in_index": True, "training_window": window_arg(win, plan["form"])}
    if win[1] in ("mo", "Y"):
        ctx.hit("probe.calendar_window")
    if plan["form"].startswith("str"):
        ctx.hit("probe.string_window")
    if not inc:
        ctx.hit("probe.excluded_cutoff")
    total = 0
    for t in plan["times"]:
        src, sdata, ses, sfs = rows, data, es, fs
        if ds["lti"]:
            # nothing after the cutoff yet (P05's known finding otherwise)
            src = {e["id"]: [r for r in e["rows"] if not time_of(e, r, t, inc)] for e in ds["entities"]}
            if not all(src.values()):
                continue
            sds = dict(ds, entities=[dict(e, rows=src[e["id"]]) for e in ds["entities"]])
            sdata = M.Data(sds)
            ses = W.build_es(ds, src)
            sfs = W.build_features(specs, ses)
        else:
            sds = ds
        ids = [i for i in tgt_ids if i in {r[0] for r in src[tgt]}]
        keep, removed = pruned(sds, sdata, t, win, inc)
        a = dict(kw)
        if plan["form"] == "now":
            Clock.set(epoch + t * 60)
            a["instance_ids"] = ids
            ctx.hit("probe.now_decides")
        else:
            a["cutoff_time"] = pd.DataFrame({"instance_id": ids, "time": [W.ts(ds, t)] * len(ids)})
        fm = calls.matrix(case, ctx, sfs, ses, **a)
        exp = M.matrix(sdata, specs, [(i, t) for i in ids], win, inc)
        d = M.diff_matrix(fm, names, exp)
        if d:
            raise Violation("window-values", "minute %s window %s: %s" % (t, win, d))
        lo = M.subtract(ds, t, win)
        for e in ds["entities"]:
            ti = [k for k, c in enumerate(e["cols"]) if c["t"] == "time"]
            if ti:
                if any(r[ti[0]] == lo for r in src[e["id"]]):
                    ctx.hit("probe.window_start_row")
                if any(r[ti[0]] < lo for r in keep[e["id"]]):
                    ctx.hit("probe.lti_keeps_parent")
                if any(r[ti[0]] > t for r in src[e["id"]]):
                    ctx.hit("probe.future_pruned")
        total += removed
        if not removed or not all(keep.values()):
            continue
        ctx.hit("probe.pruned")
        pes = W.build_es(ds, keep)
        if ds["lti"]:
            # retention keeps the last activity of what it keeps
            check_lti_kept(pes, ses, ds, lo, t, inc)
        pfs = W.build_features(specs, pes)
        kept = {r[0] for r in keep[tgt]}
        pm = ft.calculate_feature_matrix(pfs, pes, **a)
        d = M.frames_differ(fm, pm)
        if d:
            raise Violation("expired-history-matters", "minute %s window %s, %d rows dropped: %s" % (t, win, removed, d))
    ctx.nontrivial = total > 0
    ctx.sigs.add(util.digest([specs, plan["times"], win, inc, ds["lti"], total]))
    ctx.event(names, plan["times"], total)
    ctx.simtime = ds["slots"] * ds["step"] * 60.0
    ctx.sample = {"features": names[:3], "cutoffs": plan["times"], "window": win, "dropped_rows": total}


def time_of(e, r, t, inc):
    """Row r of entity e is recorded after the cutoff at minute t."""
    ti = [k for k, c in enumerate(e["cols"]) if c["t"] == "time"]
    return bool(ti) and (r[ti[0]] > t or not inc and r[ti[0]] == t)


def check_lti_kept(pes, ses, ds, lo, t, inc):
    for e in ds["entities"]:
        if not any(c["t"] == "time" for c in e["cols"]):
            continue
        got, full = pes[e["id"]].last_time_index, ses[e["id"]].last_time_index
        for i, v in got.items():
            a, b = M.cell(v), M.cell(full[i])
            if b is not None and (lo < b <= t if inc else lo <= b < t) and not M.close(a, b):
                raise Violation("lti-after-retention", "last time index of %s[%r] is %r after retention, %r before" % (e["id"], i, a, b))
