"""P05: live features equal later backfills; nothing after the cutoff leaks in."""
from sim import calls, util
from sim import model as M
from sim import workload as W
from sim.util import Violation

PROP = "P05"
LEVEL = "exploration"
TECHNIQUE = "simulated history and clock: live calculation at each step against backfills on the grown history and a reference model"
NOTE = ("A seeded history of recorded rows is replayed under a simulated clock; at chosen instants features are calculated live, and at the end "
        "backfilled on the full history; both must agree with each other and with an independent evaluator of the visible rows. "
        "Trusts the evaluator and the generator's coverage of feature shapes.")
RUNS = {"quick": 900, "thorough": 60000}
RULE = ("one run = one generated entityset, feature list and history with up to four live calculations and one backfill; distinct_nontrivial counts "
        "distinct (features, cutoff, window, data) digests of runs in which history grew after a live calculation")
MEASURE = "distinct (feature list, instants, options) digests"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas"]
STUB = ["wall clock: build/libftsim.so"]
ASSUMPTIONS = ["rows are recorded at the time in their time column; entities without a time column are known from the start",
               "floating point sums are compared with a relative tolerance of 1e-7"]
PROBES = ["clock_decides", "clock_ticks", "window", "lti", "secondary", "boundary_row", "excluded_boundary", "future_rows_dropped",
          "unknown_instance", "numeric_time", "no_rows_visible", "via_dfs"]
SHRINK = ["steps", "case.specs", "case.ds.entities.*.rows"]
SIG_LTI = "P05:lti-future-activity"


def gen(rng, i):
    case = calls.gen_case(rng, windows=0.3, single=0.0)
    ds = case["ds"]
    ids = [r[0] for r in W.entity(ds, case["tgt"])["rows"]]
    steps = []
    for t in sorted(rng.sample(range(0, ds["slots"] + 2), min(rng.randint(1, 4), ds["slots"] + 2))):
        m = t * ds["step"] + (rng.choice([0, 0, 0, 1]) if not ds["numeric_time"] else 0)
        sub = rng.sample(ids, rng.randint(1, len(ids)))
        if rng.random() < 0.15:
            sub.append(W.idval(ds, 955))
        steps.append({"t": m, "how": rng.choice(["now", "now", "time", "frame"]), "ids": None if rng.random() < 0.4 else sub,
                      "tick": rng.choice([0, 0, 0, 7, 1800])})
    return {"case": case, "steps": steps, "index": rng.random() < 0.7}


def live_rows(ds, t, strict=False):
    """What the database holds at minute t (strict: just before it, for values revealed at t)."""
    out = {}
    for e in ds["entities"]:
        cols = [c["n"] for c in e["cols"]]
        ti = [k for k, c in enumerate(e["cols"]) if c["t"] == "time"]
        rows = []
        for r in e["rows"]:
            if ti and r[ti[0]] > t:
                continue
            if e["sec"]:
                r = list(r)
                for st, sub in e["sec"].items():
                    k = cols.index(st)
                    if r[k] is not None and (r[k] > t or strict and r[k] == t):
                        for c in list(sub) + [st]:
                            r[cols.index(c)] = None
            rows.append(r)
        out[e["id"]] = rows
    return out


def run(plan, ctx):
    import featuretools as ft
    import pandas as pd
    from sim.seams import Clock
    case = plan["case"]
    ds, tgt, specs = case["ds"], case["tgt"], case["specs"]
    num = ds["numeric_time"]
    win = case["window"]
    inc = case["include"]
    kw = {"include_cutoff_time": inc, "cutoff_time_in_index": True}
    if win:
        kw["training_window"] = calls.window(win)
    epoch = (pd.Timestamp(W.BASE) - pd.Timestamp("1970-01-01")).total_seconds()
    Clock.start(epoch)
    full = M.Data(ds)
    lives = []
    for st in plan["steps"]:
        t = st["t"]
        rows = live_rows(ds, t, strict=num and st["how"] == "now")
        if not all(rows.values()):
            continue      # an entity cannot be created from no rows
        es = W.build_es(ds, rows)
        fs = W.build_features(specs, es)
        names = M.feature_columns(fs)
        known = [r[0] for r in rows[tgt]]
        how = st["how"]
        if num and how == "now" and not inc:
            how = "time"
        ids = st["ids"]
        a = dict(kw)
        if not num:
            Clock.set(epoch + t * 60)
        t0 = t
        if how == "now":
            if not num and st["tick"]:
                Clock.tick(st["tick"])
                ctx.hit("probe.clock_ticks")
            ctx.hit("probe.clock_decides")
        elif how == "time":
            a["cutoff_time"] = W.ts(ds, t)
        else:
            use = ids if ids is not None else known
            a["cutoff_time"] = pd.DataFrame({"instance_id": use, "time": [W.ts(ds, t)] * len(use)})
        if how != "frame" and ids is not None:
            a["instance_ids"] = list(ids)
        data = M.Data(ds, rows)
        if how != "frame" and ids is None:
            # the default instances are the ones visible at the cutoff time
            if not M.View(data, t, win, inc).ids(tgt):
                ctx.hit("probe.no_rows_visible")
                Clock.tick(0)
                continue
        fm, e = calls.attempt(lambda: calls.matrix(case, ctx, fs, es, **a))
        Clock.tick(0)
        if e is not None:
            if win and st["tick"] and how == "now" and ids is None and "0 instance ids" in str(e):
                continue      # everything had left the window by the time the clock was read
            raise e
        t1 = M.cell(pd.Timestamp(Clock.now(), unit="s")) if not num else t
        times = [M.cell(x) + ds.get("zero", 0) for x in fm.index.get_level_values(1)]
        if how == "now" and num:
            times = [t] * len(fm)
        if len(set(times)) > 1:
            raise Violation("many-nows", "one live calculation used several cutoff times: %r" % sorted(set(times))[:4])
        tt = times[0] if times else t
        if abs(tt - t) < 1e-9:
            tt = t
        if not (t0 <= tt <= t1 + 1e-6):
            raise Violation("wrong-now", "live calculation between minutes %s and %s used cutoff minute %s" % (t0, t1, tt))
        got = [x for x in fm.index.get_level_values(0)]
        want = ids if ids is not None else (known if how == "frame" else M.View(data, tt, win, inc).ids(tgt))
        if got != list(want):
            raise Violation("live-rows", "live matrix rows %r, expected %r" % (got[:12], list(want)[:12]))
        exp = M.matrix(data, specs, [(g, tt) for g in got], win, inc)
        d = M.diff_matrix(fm, names, exp)
        if d:
            raise Violation("live-values", "live calculation at minute %s (%s): %s" % (tt, how, d))
        if tt != t and live_rows(ds, tt) != rows:
            continue          # more was recorded while the call was starting: nothing to compare later
        lives.append((tt, got, fm, exp, names))
        ctx.simtime += 60.0 * (tt - t0)
        grown = sum(len(e["rows"]) for e in ds["entities"]) - sum(len(r) for r in rows.values())
        if grown:
            ctx.hit("probe.future_rows_dropped")
            ctx.nontrivial = True
        for e in ds["entities"]:
            ti = [k for k, c in enumerate(e["cols"]) if c["t"] == "time"]
            if ti and any(r[ti[0]] == t for r in e["rows"]):
                ctx.hit("probe.boundary_row")
                if not inc:
                    ctx.hit("probe.excluded_boundary")
        if set(got) - set(known):
            ctx.hit("probe.unknown_instance")
    ctx.event("live", [(l[0], l[1]) for l in lives])
    for p, c in [("window", win), ("lti", ds["lti"]), ("secondary", any(e["sec"] for e in ds["entities"])), ("numeric_time", num)]:
        if c:
            ctx.hit("probe." + p)
    if not lives:
        return
    # later: the whole history is there
    if not num:
        Clock.set(epoch + (ds["slots"] + 40) * ds["step"] * 60)
        ctx.simtime += (ds["slots"] + 40) * ds["step"] * 60
    es = W.build_es(ds)
    fs = W.build_features(specs, es)
    seen, rows = set(), []
    for tt, got, _, _, _ in lives:
        for g in got:
            if (g, tt) not in seen:
                seen.add((g, tt))
                rows.append((g, tt))
    ct = pd.DataFrame({"instance_id": pd.Series([r[0] for r in rows], dtype=object if ds["str_ids"] else "int64"),
                       "time": [W.ts(ds, r[1]) if not isinstance(r[1], float) or num else pd.Timestamp(W.BASE) + pd.Timedelta(minutes=r[1]) for r in rows]})
    fm = ft.calculate_feature_matrix(fs, es, cutoff_time=ct, **kw)
    names = lives[0][4]
    if len(fm) != len(rows) or [M.cell(x) for x in fm.index.get_level_values(0)] != [M.cell(r[0]) for r in rows]:
        raise Violation("backfill-rows", "backfill rows are not the requested ones in order")
    exp = M.matrix(full, specs, rows, win, inc)
    d = M.diff_matrix(fm, names, exp)
    if d:
        raise Violation("backfill-values", "backfill: " + d)
    ctx.sigs.add(util.digest([specs, [l[0] for l in lives], win, inc, ds["lti"]]))
    ctx.sample = {"features": names[:3], "instants": [l[0] for l in lives], "window": win, "rows": len(rows)}
    pos = {r: k for k, r in enumerate(rows)}
    back = [[fm.iloc[k, list(fm.columns).index(n)] for n in names] for k in range(len(rows))] if len(set(names)) == len(names) else exp
    for tt, got, lfm, lexp, _ in lives:
        for k, g in enumerate(got):
            for j, n in enumerate(names):
                a, b = lexp[k][j], back[pos[(g, tt)]][j]
                if not M.close(a, b):
                    sig = SIG_LTI if (win and ds["lti"]) else None
                    raise Violation("leak", "instance %r at minute %s, %s: live %r, backfilled %r" % (g, tt, n, a, b), sig=sig)
