"""P03: an EntitySet persisted on a shared cluster is reused and never mixed up."""
import json

from sim import calls, util
from sim import model as M
from sim import workload as W
from sim.util import Violation

PROP = "P03"
LEVEL = "exploration"
TECHNIQUE = "several simulated clients interleaved on one simulated long-lived cluster by a seeded scheduler; transfers and results checked per call"
NOTE = ("Client threads, one running at a time and switched at every call into the cluster as the plan says, calculate from EntitySets that differ "
        "in id, structure and rows on one shared cluster, editing them in between; each result is compared with the serial one, and every "
        "transfer to the cluster is accounted for. Trusts the cluster stand-in.")
CLUSTER = True
RUNS = {"quick": 240, "thorough": 40000}
RUN_TIMEOUT = 60
RULE = ("one run = up to three clients making up to three calls each on one shared cluster, interleaved by a seeded schedule; distinct_nontrivial "
        "counts distinct (order of cluster operations by client, variants) signatures among runs with at least two calls")
MEASURE = "distinct (interleaving of cluster operations, variants used, edits)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "cloudpickle", "dask.base.tokenize"]
STUB = ["dask.distributed: sim/cluster.py", "thread scheduling: sim/threads.py", "wall clock: build/libftsim.so"]
ASSUMPTIONS = ["the simulated cluster honours the documented behaviour of dask.distributed 2024.4.2",
               "two EntitySets are alike when they have the same id, entities, variables, types, time indexes, relationships and both or neither have last time indexes"]
PROBES = ["concurrent_first_use", "reused", "different_structure_same_id", "different_id", "edited_between_calls", "worker_died",
          "three_clients", "switches"]
SHRINK = ["switches", "clients", "clients.*", "cl.faults", "case.specs", "case.ds.entities.*.rows"]
SIG_ROWS = "P03:same-structure-other-rows"
CHANGES = ["col", "type", "lti", "entity", "rel", "interesting", "time", "normalize", "sec", "delete", "dtype", "typeback"]


def gen(rng, i):
    ds = W.gen_dataset(rng, numeric=False, sizes=(3, 9), bool_cols=True)
    ds["lti"] = False
    case = calls.gen_case(rng, windows=0.0, single=0.2, maxrows=6, nspecs=(1, 3), ds=ds)
    variants = [{"id": "es", "changes": [], "salt": 0}]
    for _ in range(rng.randint(1, 3)):
        v = {"id": rng.choice(["es", "es", "es", "other"]), "changes": [], "salt": len(variants)}
        if v["id"] == "es":
            v["changes"] = rng.sample(CHANGES, rng.choice([1, 1, 2]))
        variants.append(v)
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            if ops and rng.random() < 0.3:
                ops.append({"op": "edit", "change": rng.choice(CHANGES)})
            ops.append({"op": "call", "v": rng.randrange(len(variants)) if not (ops and ops[-1]["op"] == "edit") else None,
                        "chunk": rng.choice([None, 1, 3])})
        clients.append(ops)
    cl = {"seed": rng.randrange(10 ** 6), "workers": rng.randint(2, 4), "mode": "proc", "replicate": 1.0,
          "faults": [{"k": "die", "n": rng.randint(1, 6), "at": rng.choice(["start", "mid", "end"]), "line": rng.randint(1, 900)}]
          if rng.random() < 0.2 else []}
    sw = sorted(set(rng.randint(1, 60) for _ in range(rng.choice([0, 2, 6, 12, 25]))))
    return {"case": case, "variants": variants, "clients": clients, "cl": cl, "switches": [[p, rng.randrange(3)] for p in sw],
            "same_structure": i % 40 == 7}


def apply(es, change, ds, tgt, salt):
    """A structural edit through the public API. -> canonical description of it."""
    import featuretools as ft
    import pandas as pd
    from featuretools import variable_types as vt
    tgt = es[ds["entities"][-1]["id"]]
    if change == "col":
        df = es[tgt.id].df.copy()
        if "note" not in df.columns:
            ent = tgt
            new = ft.EntitySet(es.id)
            for e in es.entities:
                d = e.df.copy()
                if e.id == ent.id:
                    d["note"] = float(salt)
                new.entity_from_dataframe(e.id, d, index=e.index, time_index=e.time_index,
                                          secondary_time_index={k: list(v) for k, v in (e.secondary_time_index or {}).items()},
                                          variable_types={v.id: type(v) for v in e.variables if v.id != e.time_index and v.id != e.index})
            for r in es.relationships:
                new.add_relationship(ft.Relationship(new[r.parent_entity.id][r.parent_variable.id], new[r.child_entity.id][r.child_variable.id]))
            if any(e.last_time_index is not None for e in es.entities):
                new.add_last_time_indexes()
            return new
    elif change == "type":
        tgt.convert_variable_type("kind", vt.Ordinal)
    elif change == "typeback":
        tgt.convert_variable_type("kind", vt.Categorical)
    elif change == "lti":
        es.add_last_time_indexes()
    elif change == "entity":
        if "spare" not in es.entity_dict:
            es.entity_from_dataframe("spare", pd.DataFrame({"spare_id": [1, 2]}), index="spare_id")
    elif change == "rel":
        # a second relationship that no feature goes through
        if "kinds" not in es.entity_dict:
            vals = sorted({x for x in tgt.df["kind"] if isinstance(x, str)})
            if vals:
                es.entity_from_dataframe("kinds", pd.DataFrame({"k": pd.Series(vals, dtype=object)}), index="k")
                es.add_relationship(ft.Relationship(es["kinds"]["k"], tgt["kind"]))
    elif change == "interesting":
        es.add_interesting_values()
    elif change == "time":
        # another entity gets its time index named
        e = [x for x in ds["entities"] if not x["time"]]
        if e:
            ent = es[e[0]["id"]]
            if ent.time_index is None and "born" not in ent.df.columns:
                return None
    elif change == "normalize":
        if "kind2" not in es.entity_dict and "kinds" not in es.entity_dict:
            es.normalize_entity(tgt.id, "kind2", "kind", make_time_index=False)
    elif change == "sec":
        if tgt.secondary_time_index:
            tgt.set_secondary_time_index({})
    elif change == "delete":
        if "note" in tgt.df.columns:
            tgt.delete_variables(["note"])
    elif change == "dtype":
        df = tgt.df.copy()
        if df["x"].dtype != "float32":
            df["x"] = df["x"].astype("float32")
            tgt.update_data(df)
    return es


def structure(es):
    """What makes two EntitySets alike, read from the public state only."""
    ents = []
    ids = {(r.child_entity.id, r.child_variable.id) for r in es.relationships}     # always taken for Ids
    for e in es.entities:
        ents.append([e.id, e.index, e.time_index, sorted((k, list(v)) for k, v in (e.secondary_time_index or {}).items()),
                     [(v.id, "Id" if (e.id, v.id) in ids else type(v).__name__, sorted(map(str, list(v.interesting_values)))) for v in e.variables],
                     [(c, str(t)) for c, t in e.df.dtypes.items()]])
    rels = [(r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id) for r in es.relationships]
    return json.dumps([es.id, sorted(ents, key=lambda x: x[0]), rels, any(e.last_time_index is not None for e in es.entities)])


def salted(ds, salt):
    ds = json.loads(json.dumps(ds))
    for e in ds["entities"]:
        for k, c in enumerate(e["cols"]):
            if c["t"] == "num":
                for r in e["rows"]:
                    if r[k] is not None:
                        r[k] += 1000 * salt
    return ds


def run(plan, ctx):
    import featuretools as ft
    from sim import cluster, threads
    from sim.seams import Clock
    case, ds, tgt = plan["case"], plan["case"]["ds"], plan["case"]["tgt"]
    if not calls.rows_of(case):
        return
    Clock.start(1600000000)

    def make(v):
        es = W.build_es(salted(ds, v["salt"]), es_id=v["id"])
        for c in v["changes"]:
            es = apply(es, c, ds, tgt, v["salt"]) or es
        return es
    if plan["same_structure"]:
        return same_structure(plan, ctx)
    # two calls must never meet the known limitation (same structure, other rows): remember who had which rows
    rows_of = {}

    def known(es, salt):
        s = structure(es)
        if rows_of.setdefault(s, salt) != salt:
            return None
        return s
    sim = cluster.start(dict(plan["cl"], faults=[]), ctx)
    shared = cluster.SimCluster(n_workers=plan["cl"]["workers"], owned=False)
    sim.counts.clear()
    sim.faults = [dict(f) for f in plan["cl"]["faults"]]
    ops = []
    finished, started = set(), {}
    edits = [0]
    prep = []
    # prepare each client's calls beforehand (a client is a process of its own: nothing is shared but the cluster)
    for n, cl in enumerate(plan["clients"]):
        seq, es, salt = [], None, None
        for op in cl:
            if op["op"] == "edit":
                seq.append(("edit", op["change"]))
            else:
                seq.append(("call", op["v"], op["chunk"]))
        prep.append(seq)

    def client(n, seq):
        def go():
            es, salt = None, None
            out = []
            for step in seq:
                if step[0] == "edit":
                    if es is None:
                        continue
                    # new rows and a structural change
                    salt = 50 + 10 * n + len(out)
                    before = structure(es)
                    data = salted(ds, salt)
                    for e in data["entities"]:
                        cur = es[e["id"]]
                        df = W.frame(data, e)
                        df.index = df[cur.index]
                        new = cur.df.copy()
                        new["x"] = df["x"].reindex(new.index).astype(new["x"].dtype)
                        cur.update_data(new)
                    es = apply(es, step[1], ds, tgt, salt) or es
                    if structure(es) == before:
                        es.entity_from_dataframe("extra_%d_%d" % (n, len(out)), __import__("pandas").DataFrame({"i": [1]}), index="i")
                    ctx.hit("probe.edited_between_calls")
                    continue
                if step[1] is not None:
                    v = plan["variants"][step[1] % len(plan["variants"])]
                    es, salt = make(v), v["salt"]
                if es is None:
                    continue
                s = known(es, salt)
                if s is None:
                    continue
                sp = [x for x in case["specs"]]
                serial_es = __import__("copy").deepcopy(es)
                exp = ft.calculate_feature_matrix(W.build_features(sp, serial_es), serial_es, **calls.cutoff_args(case))
                fs = W.build_features(sp, es)
                kw = calls.cutoff_args(case)
                if step[2]:
                    kw["chunk_size"] = step[2]
                before = s in finished
                if not before and started.get(s, 0):
                    ctx.hit("probe.concurrent_first_use")
                if len({x for x in rows_of if json.loads(x)[0] == es.id}) > 1:
                    ctx.hit("probe.different_structure_same_id")
                if es.id == "other":
                    ctx.hit("probe.different_id")
                started[s] = started.get(s, 0) + 1
                t0 = len(sim.sent)
                c0 = len(sim.clients)
                fm, e = calls.attempt(lambda: ft.calculate_feature_matrix(fs, es, dask_kwargs={"cluster": shared}, **kw))
                started[s] -= 1
                mine = {c.id for c in sim.clients[c0:] if c.thread == n}
                sent = [k for cid, k in sim.sent[t0:] if cid in mine and k.startswith("EntitySet")]
                ctx.event(n, "call", salt, before, len(sent))
                what = "client %d, EntitySet %s rows %d" % (n, es.id, salt)
                if e is not None and sim.fired and type(e).__name__ in ("FutureCancelledError", "CancelledError", "KilledWorker", "RuntimeError"):
                    ctx.hit("probe.data_lost_with_worker")      # what was scattered to it was lost: raising is right
                    continue
                if e is not None:
                    raise Violation("call-fails", "%s: %s" % (what, calls.describe(e)))
                d = M.frames_differ(fm, exp)
                if d:
                    raise Violation("mixed-up", "%s: result differs from the serial one: %s" % (what, d))
                if before:
                    ctx.hit("probe.reused")
                    if sent:
                        raise Violation("transferred-again", "%s: an EntitySet already persisted was transferred again" % what)
                if len(sent) > 1:
                    raise Violation("transferred-twice", "%s: the EntitySet was transferred %d times" % (what, len(sent)))
                finished.add(s)
                out.append(salt)
            return out
        return go
    b = threads.Baton(plan["switches"], start=plan["cl"]["seed"])
    sim.yielder = b.point
    sim.whoami = lambda: b.threads.index(b.cur) if b.cur is not None else -1
    for n, seq in enumerate(prep):
        b.spawn("client-%d" % n, client(n, seq))
    b.run()
    for t in b.threads:
        if t.exc is not None:
            raise t.exc
    total = sum(len(t.result or []) for t in b.threads)
    if len(plan["clients"]) > 2:
        ctx.hit("probe.three_clients")
    if len(b.trace) > 3:
        ctx.hit("probe.switches", len(b.trace))
    if sim.fired:
        ctx.hit("probe.worker_died")
    ctx.nontrivial = total >= 2
    log = [x for x in sim.log]
    ctx.sigs.add(util.digest([log, [t.result for t in b.threads], [v["changes"] for v in plan["variants"]]]))
    ctx.event(b.trace, len(log))
    ctx.sample = {"clients": len(b.threads), "calls": total, "switches": len(b.trace), "cluster_operations": len(log)}
    if shared.closed:
        raise Violation("cluster-closed", "the shared cluster was closed")


def same_structure(plan, ctx):
    """Known limitation: same id and structure, other rows."""
    import featuretools as ft
    from sim import cluster
    case = plan["case"]
    sim = cluster.start(dict(plan["cl"], faults=[]), ctx)
    shared = cluster.SimCluster(n_workers=2, owned=False)
    for salt in (0, 3):
        es = W.build_es(salted(case["ds"], salt))
        exp = ft.calculate_feature_matrix(W.build_features(case["specs"], es), es, **calls.cutoff_args(case))
        es = W.build_es(salted(case["ds"], salt))
        fs = W.build_features(case["specs"], es)
        fm = ft.calculate_feature_matrix(fs, es, dask_kwargs={"cluster": shared}, **calls.cutoff_args(case))
        d = M.frames_differ(fm, exp)
        if d:
            raise Violation("stale-rows", "the second EntitySet has the same id and structure and other rows: %s" % d, sig=SIG_ROWS)
