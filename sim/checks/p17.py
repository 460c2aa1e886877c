"""P17: incremental ingestion converges to loading everything at once."""
import copy
import os
import random

from sim import calls, escmp, lines, refes, util
from sim import workload as W
from sim.checks import p18
from sim.util import Violation

PROP = "P17"
LEVEL = "fault_enumeration"
TECHNIQUE = ("seeded ingestion histories: batches delivered in any order, repeatedly and overlapping, interrupted, checkpointed on a simulated disk, crashed and "
             "redelivered; the EntitySet refined step by step against a reference and finally against one loaded at once")
NOTE = ("An ingesting service keeps an EntitySet that receives batches through concat or update_data, checkpoints it, is killed (also while writing) and redelivers; "
        "after every step the state equals the reference, at the end also metadata, saved features and matrices equal those of loading everything at once.")
RUNS = {"quick": 260, "thorough": 20000}
RUN_TIMEOUT = 120
RULE = ("one run = one schema and history split in 2-5 overlapping batches, delivered by a generated script of deliveries, checkpoints, crashes and restarts; "
        "distinct_nontrivial counts distinct (previous step, step, fault fired, activity times kept) signatures")
MEASURE = "distinct (previous step, step, fault, last time indexes kept)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "pyarrow / fastparquet", "the file system below the seam"]
STUB = ["disk: operations of the checkpoint directory pass sim/seams.Disk, which fails or crashes at a chosen one",
        "process death: each life of the service is a forked process", "signals: exceptions raised at a chosen executed line", "clock (sim/seams.Clock)"]
ASSUMPTIONS = ["rows with the same id agree in all batches", "entities have an index column of their own (not make_index)",
               "a checkpoint counts once its directory has been written and a pointer file replaced"]
PROBES = ["concat", "new", "flip", "update", "sorted", "one", "lti", "lti_other", "save", "restart", "crash", "redelivered", "duplicate", "overlap", "empty_batch", "copy",
          "interrupted", "numeric", "secondary", "csv", "parquet", "pickle", "window", "window_at_end", "several_parents", "saved_features"]
SHRINK = ["steps", "batches"]
SHRINK_S = {"quick": 60, "thorough": 300}


# ---------------------------------------------------------------- plans
def gen(rng, i):
    m = refes.Model("es", numeric=rng.random() < 0.12)
    flow = rng.random() < 0.5           # rows arrive roughly in the order of their times
    for k in range(rng.choice([2, 3, 3, 4])):
        for _ in range(20):
            index, time, sec, cols = p18.gen_cols(rng, m, k)
            up = rng.choice(list(m.ents.values())[-2:] + [list(m.ents.values())[-1]]) if m.ents and rng.random() < 0.75 else None
            if up is not None:
                cols.append(["up", up.col(up.index)[1], "Id"])
            rows = p18.gen_rows(rng, cols, index, p18.gen_ids(rng, cols[0][1], rng.randint(2, 8)))
            if up is not None:
                for r in rows:
                    if rng.random() < 0.85 and up.rows:
                        r["up"] = rng.choice(up.rows)[up.index]
            if time and flow:
                for r, t in zip(rows, sorted(r[time] for r in rows)):
                    r[time] = t
                if k:
                    rows[-1][time] = (20 + k) * (1 if m.numeric else 60)
            t = m.copy()
            try:
                t.add_entity("e%d" % k, index, time, sec, cols, rows)
            except (refes.Skip, refes.Refused):
                continue
            m = t
            if up is not None:
                m.add_relationship(up.id, up.index, "e%d" % k, "up")
            break
    for _ in range(rng.randint(0, 4)):
        ents = list(m.ents.values())
        pairs = [(p, c, v[0]) for p in ents for c in ents if p is not c for v in c.cols if v[1] == p.col(p.index)[1] and v[0] != c.index]
        if not pairs:
            break
        chain = [q for q in pairs if any(r[2] == q[0].id or r[0] == q[1].id for r in m.rels) and not any(r[0] == q[0].id and r[2] == q[1].id for r in m.rels)]
        p, c, v = rng.choice(chain if chain and rng.random() < 0.7 else pairs)
        t = m.copy()
        try:
            t.add_relationship(p.id, p.index, c.id, v)
            m = t
        except (refes.Skip, refes.Refused):
            pass
    ents = [{"id": e.id, "index": e.index, "time": e.time, "sec": e.sec, "cols": e.cols, "rows": e.rows} for e in m.ents.values()]
    n = rng.randint(2, 5)
    batches = [{} for _ in range(n)]
    for e in ents:
        for b in batches:
            b[e["id"]] = []
        for k in range(len(e["rows"])):
            for b in [batches[k * n // len(e["rows"])]] if flow and rng.random() < 0.8 else rng.sample(batches, rng.choice([1, 1, 1, 2, min(3, n)])):
                b[e["id"]].append(k)
        for b in batches:
            if not b[e["id"]] and rng.random() < 0.7:
                b[e["id"]].append(rng.randrange(len(e["rows"])))
            rng.shuffle(b[e["id"]])
    steps = []
    for b in range(n):
        steps.append(delivery(rng, b, ents))
        if rng.random() < 0.25:
            steps.append(delivery(rng, rng.randrange(n), ents))
    if not flow or rng.random() < 0.3:
        rng.shuffle(steps)
    full = []
    for s in steps:
        full.append(s)
        while rng.random() < 0.45:
            k = rng.choice(["lti", "lti", "save", "save", "restart", "copy"])
            if k == "lti":
                full.append({"do": "lti"})
            elif k == "save":
                f = None
                if rng.random() < 0.4:
                    f = {"kind": rng.choice(["crash", "crash", "enospc", "eio", "short"]), "pos": rng.random(), "frac": rng.choice([0, 0.5, 1]), "sticky": rng.random() < 0.3}
                full.append({"do": "save", "fmt": rng.choice(["csv", "parquet", "pickle"]), "fault": f})
            elif k == "restart":
                full.append({"do": "restart", "overlap": rng.choice([0, 0, 1, 3])})
            else:
                full.append({"do": "copy", "how": rng.choice(["deep", "pickle"])})
    return {"numeric": m.numeric, "ents": ents, "rels": [list(r) for r in m.rels], "batches": batches, "steps": full, "seed": rng.randrange(10 ** 6),
            "features": {"agg": rng.sample(["sum", "count", "last", "max", "num_unique", "mode", "time_since_last", "trend", "std", "n_most_common"], 3),
                         "trans": rng.sample(["is_null", "cum_sum", "month", "diff", "percentile", "num_words", "negate"], 2),
                         "target": rng.choice(ents)["id"], "window": rng.random() < 0.7, "at": sorted(rng.sample(range(22), 3)), "approximate": rng.random() < 0.2}}


def delivery(rng, b, ents):
    how = rng.choice(["concat", "concat", "new", "flip", "update", "update", "update", "one", "one"])
    s = {"do": "deliver", "b": b, "how": how, "lti_other": rng.random() < 0.1, "sorted": rng.random() < 0.3}
    if how == "one":
        s["e"] = rng.choice(ents)["id"]
    if how == "update":
        s["order"] = rng.sample([e["id"] for e in ents], len(ents))
    if rng.random() < 0.15:
        s["cut"] = rng.random()
    return s


def model(plan):
    m = refes.Model("es", plan["numeric"])
    try:
        for e in plan["ents"]:
            m.add_entity(e["id"], e["index"], e["time"], e["sec"], e["cols"], [])
        for r in plan["rels"]:
            m.add_relationship(*r)
    except (refes.Skip, refes.Refused) as ex:
        raise util.Invalid(str(ex))
    return m


def build(m, plan, rows, rng, lti=False):
    """An EntitySet of the model's structure with these rows (in any order where there is a time index)."""
    import featuretools as ft
    es = ft.EntitySet("es")
    for e in plan["ents"]:
        me = m.ents[e["id"]]
        rs = [e["rows"][k] for k in rows[e["id"]]]
        if e["time"] is None:
            rs = sorted(rs, key=lambda r: r[e["index"]])
        else:
            rng.shuffle(rs)
        es.entity_from_dataframe(e["id"], refes.frame(me.cols, rs), index=e["index"], time_index=e["time"], variable_types=refes.types(me.cols, (e["index"],)),
                                 secondary_time_index={k: list(v) for k, v in e["sec"].items()} or None)
    for p, pv, c, cv in m.rels:
        es.add_relationship(ft.Relationship(es[p][pv], es[c][cv]))
    if lti:
        es.add_last_time_indexes()
    return es


def settle(m, plan, have, lti):
    """Puts the rows that have arrived into the model."""
    for e in plan["ents"]:
        me = m.ents[e["id"]]
        me.rows = [dict(e["rows"][k]) for k in sorted(have[e["id"]], key=lambda k: e["rows"][k][e["index"]])]
        me.sort()
        me.lti = None
    if lti:
        m.add_lti()


class State:
    pass


def deliver(st, plan, s, rng, hit, what):
    """One delivery on the live EntitySet; checks operands."""
    b = plan["batches"][s["b"]]
    how = s["how"]
    cur = {e: set(r) for e, r in st.have.items()}
    if how in ("update", "one"):
        ids = [s["e"]] if how == "one" else s.get("order") or [e["id"] for e in plan["ents"]]
        for id in ids:
            e = next(q for q in plan["ents"] if q["id"] == id)
            rs = sorted(st.have[id] | set(b[id]))
            new = [e["rows"][k] for k in rs]
            if s["sorted"] or not e["time"]:
                new.sort(key=lambda r: (r[e["time"]] if e["time"] else 0, r[e["index"]]))
            else:
                rng.shuffle(new)
            df = refes.frame(st.m.ents[id].cols, new)
            was = escmp_frame(df)
            strike(lambda es: es[id].update_data(df, already_sorted=s["sorted"]), st, s, hit)
            if escmp_frame(df) != was:
                raise Violation("argument_altered", "%s altered the dataframe passed to update_data for %s" % (what, id))
            st.have[id] = set(rs)
        if s["sorted"]:
            hit("probe.sorted")
    else:
        other = build(st.m, plan, b, rng, s["lti_other"] and not plan["numeric"])
        was, mine = escmp.describe(other), escmp.describe(st.es)
        if how == "concat":
            strike(lambda es: es.concat(other, inplace=True), st, s, hit)
        elif how == "new":
            old = st.es
            st.es = old.concat(other)
            st.left.append((what + ": the operand", old, mine))
        else:
            old = st.es
            st.es = other.concat(old)
            st.left.append((what + ": the operand", old, mine))
        st.left.append((what + ": the batch", other, was))
        if s["lti_other"] and not plan["numeric"]:
            st.lti = True
            hit("probe.lti_other")
        for e in st.have:
            st.have[e] |= set(b[e])
    hit("probe." + how)
    if any(not b[e] for e in b):
        hit("probe.empty_batch")
    if any(cur[e] & set(b[e]) for e in b):
        hit("probe.overlap")


def escmp_frame(df):
    return [list(df.columns), [str(t) for t in df.dtypes], list(df.index), df.astype(object).where(df.notnull(), None).values.tolist()]


def strike(fn, st, s, hit):
    """fn(es), perhaps interrupted once and then repeated."""
    if s.get("cut") is None:
        fn(st.es)
        return
    trial = copy.deepcopy(st.es)
    n, _ = lines.count_lines(lambda: fn(trial))
    try:
        with lines.interrupt_at(1 + int(s["cut"] * n), KeyboardInterrupt):
            fn(st.es)
    except KeyboardInterrupt:
        hit("probe.interrupted")
        hit("fault.ctrl_c")
        fn(st.es)


def check(st, plan, what):
    settle(st.m, plan, st.have, st.lti)
    want, got = st.m.describe(), escmp.describe(st.es)
    d = escmp.diff(want, got)
    if d:
        raise Violation("state_differs", "%s: %s (everything that arrived versus EntitySet)" % (what, d))
    for w, es, was in st.left:
        d = escmp.diff(was, escmp.describe(es))
        if d:
            raise Violation("operand_altered", "%s altered by %s: %s" % (w, what, d))


def life(plan, root, no, start, ck, ctx_hit, sigs):
    """One life of the service: from the last checkpoint until it dies or has done all steps. -> (next step, checkpoint, finished, hits)"""
    import featuretools as ft
    from sim import seams
    rng = random.Random(plan["seed"] + 1000 * no)
    st = State()
    st.m = model(plan)
    st.left = []
    st.lti = False
    steps = plan["steps"]
    hit = ctx_hit
    prev = "start" if not no else "restarted"
    todo = list(range(start, len(steps)))
    seen = set()
    if ck is None:
        st.es = None
        st.have = {e["id"]: set() for e in plan["ents"]}
        if no:
            todo = [k for k in range(start) if steps[k]["do"] == "deliver"] + todo
            hit("probe.redelivered")
    else:
        st.es = ft.read_entityset(os.path.join(root, ck["dir"]))
        st.have = {e: set(r) for e, r in ck["have"].items()}
        st.lti = ck["lti"]
        check(st, plan, "life %d after reading checkpoint %s" % (no, ck["dir"]))
        again = [k for k in range(max(0, ck["pos"] - ck.get("overlap", 0)), start) if steps[k]["do"] == "deliver"]
        todo = again + todo
        if again:
            hit("probe.redelivered")
    for k in todo:
        s = steps[k]
        what = "life %d, step %d %s" % (no, k, s)
        fired = None
        if s["do"] == "deliver":
            if s["b"] in seen:
                hit("probe.duplicate")
            seen.add(s["b"])
            if st.es is None:
                st.es = build(st.m, plan, plan["batches"][s["b"]], rng)
                st.have = {e: set(r) for e, r in plan["batches"][s["b"]].items()}
            else:
                deliver(st, plan, s, rng, hit, what)
        elif st.es is None:
            continue
        elif s["do"] == "lti":
            if plan["numeric"]:
                continue
            st.es.add_last_time_indexes()
            st.lti = True
            hit("probe.lti")
        elif s["do"] == "copy":
            mine = escmp.describe(st.es)
            if s["how"] == "deep":
                q = copy.deepcopy(st.es)
            else:
                import cloudpickle
                q = cloudpickle.loads(cloudpickle.dumps(st.es))
            st.left.append((what + ": the original", st.es, mine))
            st.es = q
            hit("probe.copy")
        elif s["do"] == "save":
            name = "c%d_%d" % (no, k)
            p = os.path.join(root, name)
            write = getattr(st.es, "to_" + s["fmt"])
            ok = True
            if s["fault"]:
                trial = os.path.join(root, "trial_" + name)
                disk = seams.Disk(trial, faults=[])
                with disk:
                    write(trial)
                f = s["fault"]
                disk2 = seams.Disk(p, faults=[{"at": 1 + int(f["pos"] * disk.n), "kind": f["kind"], "frac": f["frac"], "sticky": f["sticky"]}])
                disk2.on_crash = lambda: util.crash_note({"next": k + 1, "fired": disk2.fired})
                try:
                    with disk2:
                        write(p)
                except Exception as e:
                    if not disk2.fired:
                        raise
                    ok = False
                if disk2.error:
                    raise RuntimeError("harness: " + disk2.error)
                for q in disk2.fired:
                    hit("fault." + q["kind"])
                fired = bool(disk2.fired)
            else:
                write(p)
            if ok:
                ck = {"dir": name, "have": {e: sorted(r) for e, r in st.have.items()}, "lti": st.lti, "pos": k + 1}
                util_write(root, ck)
                hit("probe.save")
                hit("probe." + s["fmt"])
        elif s["do"] == "restart":
            hit("probe.restart")
            sigs.append("%s>restart" % prev)
            return {"next": k + 1, "overlap": s["overlap"], "done": False}
        check(st, plan, what)
        sigs.append("%s>%s|%s|%s" % (prev, s["do"] + s.get("how", s.get("fmt", "")), fired, st.lti))
        prev = s["do"] + s.get("how", s.get("fmt", ""))
    # everything has arrived: compare with loading all at once
    if st.es is None:
        return {"done": True}
    for b in range(len(plan["batches"])):
        if any(not set(r) <= st.have[e] for e, r in plan["batches"][b].items()):
            deliver(st, plan, {"b": b, "how": "concat", "lti_other": False, "sorted": False}, rng, hit, "the rest")
    check(st, plan, "at the end")
    finish(st, plan, rng, hit)
    return {"done": True}


def util_write(root, ck):
    import json
    with open(os.path.join(root, "current.new"), "w") as f:
        json.dump(ck, f)
    os.replace(os.path.join(root, "current.new"), os.path.join(root, "current"))


def util_read(root):
    import json
    p = os.path.join(root, "current")
    if not os.path.exists(p):
        return None
    with open(p) as f:
        return json.load(f)


def finish(st, plan, rng, hit):
    import featuretools as ft
    import pandas as pd
    from sim.checks import p12
    f = plan["features"]
    once = build(st.m, plan, {e["id"]: sorted(st.have[e["id"]]) for e in plan["ents"]}, rng, False)
    lti = not plan["numeric"] and (st.lti or f["window"])
    if lti:
        once.add_last_time_indexes()
        if not st.lti:
            st.es.add_last_time_indexes()
            st.lti = True
            check(st, plan, "last time indexes at the end")
            hit("probe.window_at_end")
    d = escmp.diff(escmp.describe(once), escmp.describe(st.es))
    if d:
        raise Violation("state_differs", "at the end: %s (loaded at once versus ingested)" % d)
    d = escmp.diff(escmp.metadata(once), escmp.metadata(st.es))
    if d:
        raise Violation("metadata_differs", "at the end: %s (loaded at once versus ingested)" % d)
    if not (once == st.es and st.es == once):
        raise Violation("not_equal", "the ingested EntitySet does not equal the one loaded at once")
    first = build(st.m, plan, plan["batches"][0], rng)
    if len(plan["rels"]) > len(set((r[2], r[0]) for r in plan["rels"])):
        hit("probe.several_parents")
    if any(e["sec"] for e in plan["ents"]):
        hit("probe.secondary")
    if plan["numeric"]:
        hit("probe.numeric")
    agg = [p for p in f["agg"] if not (plan["numeric"] and p in ("time_since_last", "trend"))]
    out = []
    kw = {"target_entity": f["target"], "agg_primitives": agg, "trans_primitives": f["trans"], "max_depth": 2, "max_features": 40}
    saved = None
    fl0 = ft.dfs(entityset=first, features_only=True, **kw)
    if fl0:
        saved = ft.save_features(fl0)
    times = [a if plan["numeric"] else W.ts({"numeric_time": False}, a * 60) for a in f["at"]]
    idcol = next(e for e in plan["ents"] if e["id"] == f["target"])
    ids = sorted(set(idcol["rows"][k][idcol["index"]] for k in st.have[f["target"]]))
    ct = pd.DataFrame({"instance_id": [ids[(k * 3 + j) % len(ids)] for k in range(3) for j in range(2)], "time": [times[k] for k in range(3) for j in range(2)]}).drop_duplicates()
    ckw = {"cutoff_time": ct, "cutoff_time_in_index": True}
    if lti and f["window"]:
        ckw["training_window"] = "4 hours"
        hit("probe.window")
    if f["approximate"] and not plan["numeric"]:
        ckw["approximate"] = "2 hours"
    for es in (once, st.es):
        row = []
        try:
            fm, fl = ft.dfs(entityset=es, **dict(kw, **ckw))
            row += [p12.cells(fm), [p12.feature(x) for x in fl]]
        except Exception as e:
            row.append(["raises", type(e).__name__, str(e)[:300]])
        if saved is not None:
            try:
                row.append(p12.cells(ft.calculate_feature_matrix(ft.load_features(saved), es, **ckw)))
            except Exception as e:
                row.append(["raises", type(e).__name__, str(e)[:300]])
        out.append(row)
    if saved is not None:
        hit("probe.saved_features")
    d = escmp.diff(out[0], out[1])
    if d:
        raise Violation("features_differ", "%s (loaded at once versus ingested)" % d)


def run(plan, ctx):
    import warnings

    import featuretools as ft  # noqa
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    root = ctx.scratch()
    if not plan["batches"] or any(s["do"] == "deliver" and s["b"] >= len(plan["batches"]) for s in plan["steps"]):
        raise util.Invalid("batches")
    model(plan)
    start, overlap = 0, 0
    for no in range(len(plan["steps"]) + 2):
        ck = util_read(root)
        if ck:
            ck["overlap"] = overlap

        def body():
            hits, sigs = [], []
            out = {"hits": hits, "sigs": sigs, "violation": None}
            try:
                out.update(life(plan, root, no, start, ck, hits.append, sigs))
            except Violation as v:
                out["violation"] = (v.cls, v.detail, v.sig)
            return out
        kind, v = util.in_process(body)
        if kind == "crash":
            ctx.hit("fault.crash")
            ctx.hit("probe.crash")
            ctx.event(no, "crash", [q["kind"] for q in v["fired"]])
            start, overlap = v["next"], 0
            continue
        if kind == "exc":
            loc = util.repo_location(v[2])
            if loc:
                raise Violation("raises", "%s: %s: %s" % (loc, v[0], " | ".join(v[2].strip().splitlines()[-6:])[-700:]))
            raise RuntimeError("harness: %r" % (v,))
        if kind != "ok":
            raise RuntimeError("harness: %s %r" % (kind, v))
        for h in v["hits"]:
            ctx.hit(h)
        ctx.sigs.update(v["sigs"])
        ctx.event(no, sorted(v["hits"]), v["sigs"])
        if v["violation"]:
            raise Violation(*v["violation"])
        if v["done"]:
            break
        start, overlap = v["next"], v["overlap"]
        Clock.advance(3600)
    ctx.nontrivial = len(plan["batches"]) > 1
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"steps": [s["do"] + s.get("how", s.get("fmt", "")) for s in plan["steps"]], "lives": no + 1}
