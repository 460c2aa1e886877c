"""P18: an EntitySet stays consistent through any history of edits."""
import copy

from sim import calls, escmp, lines, refes, util
from sim import workload as W
from sim.util import Violation

PROP = "P18"
LEVEL = "exploration"
TECHNIQUE = ("seeded histories of edits, some refused and some interrupted at a chosen executed line and repeated, refined step by step against a small reference "
             "EntitySet; metadata and copies compared after every step")
NOTE = ("Histories of up to 16 edits on one EntitySet: entities, relationships, normalising, updates, concatenation, last time indexes, interesting values, types, "
        "deletions, copies. After each, the whole state must equal the reference model's; refused edits must change nothing; interrupted ones can be repeated.")
RUNS = {"quick": 900, "thorough": 50000}
RUN_TIMEOUT = 90
RULE = ("one run = one generated history of 3-16 edits applied to the real EntitySet and to the model, compared after every edit; distinct_nontrivial counts "
        "distinct (edit, outcome, previous edit, interruption place) signatures")
MEASURE = "distinct (previous edit, edit, outcome, place interrupted)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas"]
STUB = ["signals: exceptions raised at a chosen executed line (sim/lines.py)"]
ASSUMPTIONS = ["keys and time indexes are not deleted or converted and ids of entities are not reused",
               "normalised columns hold no nulls; entities are never empty"]
OPS = ["add", "relate", "normalize", "update", "concat", "lti", "mark", "interesting", "describe", "name", "convert", "delete", "set_time", "copy", "pickle", "features"]
PROBES = OPS + ["refused", "interrupted", "repeated", "make_index", "secondary", "inplace", "numeric", "window", "lti_kept", "many_values", "many_values_some_frequent"]
SHRINK = ["ops"]


# ---------------------------------------------------------------- plans
def gen_cols(rng, m, k):
    index = "e%d_id" % k
    cols = [[index, rng.choice(["sid", "iid", "iid"]), "Index"]]
    tk = "nt" if m.numeric else "t"
    time = None
    if rng.random() < 0.7:
        time = rng.choice(["ts", "e%d_time" % k])
        cols.append([time, tk, refes.TYPE[tk]])
    pool = ["cat", "num", "int", "code", "bool", "note", "date", "sid", "iid", tk]
    for n, kind in enumerate(rng.choice(pool) for _ in range(rng.randint(2, 6))):
        cols.append(["%s%d" % (kind, n), kind, refes.TYPE[kind] if kind not in ("sid", "iid") else rng.choice(["Id", "Categorical"])])
    sec = None
    times = [c[0] for c in cols if c[1] == tk and c[0] != time]
    if times and rng.random() < 0.4:
        vals = [c[0] for c in cols if c[1] in ("num", "cat", "code")]
        if vals:
            sec = {times[0]: rng.sample(vals, rng.randint(1, min(2, len(vals))))}
    return index, time, sec, cols


def gen_cell(rng, kind):
    if kind in ("t", "nt"):
        return rng.randrange(20) * (60 if kind == "t" else 1)
    if kind == "iid":
        return rng.randint(1, 6)
    if kind == "sid":
        return "k%d" % rng.randint(1, 6)
    if kind == "int":
        return rng.randint(-3, 5)
    if kind == "bool":
        return rng.random() < 0.5
    if rng.random() < 0.12:
        return None
    if kind == "num":
        return rng.randint(-20, 20) / 4.0
    return {"cat": rng.choice("abc"), "code": rng.choice(["007", "12", "5", "30"]), "note": rng.choice(["some words", "other words here", "x y"]),
            "date": rng.choice(["2020-01-01", "2020-03-05", "2019-12-31"])}[kind]


def gen_rows(rng, cols, index, ids, unique=True):
    rows = []
    for i in ids:
        r = {c[0]: gen_cell(rng, c[1]) for c in cols}
        r[index] = i
        rows.append(r)
    return rows


def gen_ids(rng, kind, n, hi=9):
    ids = rng.sample(range(1, hi + 1), n)
    return ids if DTYPE_INT(kind) else ["k%d" % i for i in ids]


def DTYPE_INT(kind):
    return refes.DTYPE[kind] == "int64"


def gen_op(rng, m, k):
    """One edit for a model in state m; mostly applicable."""
    ents = list(m.ents.values())
    if not ents or (len(ents) < 5 and rng.random() < 0.2) or len(ents) < 2 and rng.random() < 0.6:
        index, time, sec, cols = gen_cols(rng, m, k)
        o = {"op": "add", "id": "e%d" % k, "index": index, "time": time, "sec": sec, "cols": cols, "make": False}
        wide = rng.random() < 0.2
        ids = gen_ids(rng, cols[0][1], rng.randint(28, 50), 60) if wide else gen_ids(rng, cols[0][1], rng.randint(1, 6))
        bad = rng.choice([None] * 7 + ["dup", "type", "timetype"])
        if bad == "dup":
            ids = ids + ids[:1]
        elif rng.random() < 0.12:
            o["make"] = True
            cols.pop(0)
            o["index"] = "made%d" % k
        elif bad == "type":
            texts = [c[0] for c in cols if c[1] == "note"]
            if texts:
                o["time"], o["sec"] = texts[0], None
        elif bad == "timetype" and not m.numeric:
            nums = [c[0] for c in cols if c[1] == "int"]
            if nums:
                if rng.random() < 0.5:
                    o["time"] = nums[0]
                else:
                    o["sec"] = {nums[0]: []}
        o["rows"] = gen_rows(rng, cols, o["index"], ids)
        many = [c for c in cols if c[1] in ("sid", "iid", "cat") and c[0] != o["index"]]
        if wide and many:
            # more than 24 different values, a few of them frequent
            c = rng.choice(many)
            hot = rng.choice([0.0, 0.2, 0.35])
            for i, r in enumerate(o["rows"]):
                v = rng.randint(1, 3) if rng.random() < hot else 4 + i
                r[c[0]] = v if c[1] == "iid" else "k%d" % v
        if o["make"]:
            for r in o["rows"]:
                r.pop(o["index"])
        return o
    e = rng.choice(ents)
    names = [c[0] for c in e.cols]
    kind = rng.choice(["relate"] * 4 + ["normalize"] * 3 + ["update"] * 4 + ["concat"] * 2 + ["lti"] * 3 + ["mark", "mark", "interesting", "describe", "name", "convert",
                      "convert", "delete", "set_time", "copy", "pickle", "features"])
    o = {"op": kind, "id": e.id}
    if kind == "relate":
        other = rng.choice(ents)
        want = e.col(e.index)[1]
        cvs = [c[0] for c in other.cols if c[1] == want and c[0] != other.index] if rng.random() < 0.85 else names
        if other.id == e.id or not cvs:
            pairs = [(p, c, v[0]) for p in ents for c in ents if p is not c for v in c.cols if v[1] == p.col(p.index)[1] and v[0] != c.index]
            if not pairs:
                return None
            p, c, v = rng.choice(pairs)
            return dict(o, id=p.id, pv=p.index, child=c.id, cv=v)
        o.update(pv=e.index if rng.random() < 0.93 else rng.choice(names), child=other.id, cv=rng.choice([c[0] for c in other.cols] if rng.random() < 0.2 else cvs))
    elif kind == "normalize":
        free = [c[0] for c in e.cols if c[0] not in (e.index, e.time) and not m.linked(e.id, c[0]) and c[0] not in e.sec and not any(c[0] in v for v in e.sec.values())]
        keys = [n for n in free if e.col(n)[1] in ("cat", "code", "iid", "sid", "int", "date") and all(r[n] is not None for r in e.rows)]
        if not keys:
            return None
        index = rng.choice(keys) if rng.random() < 0.95 else e.index
        rest = [n for n in free if n != index]
        rng.shuffle(rest)
        a = rng.randint(0, min(2, len(rest)))
        c = rng.randint(0, min(2, len(rest) - a))
        o.update(new="e%d" % k, index=index, add=rest[:a], copies=rest[a:a + c], make_time=rng.choice([None, None, True, False]), new_time=rng.choice([None, None, "seen_at"]),
                 sec=None, new_sec=None)
        times = [n for n in o["add"] + o["copies"] if e.col(n)[1] == ("nt" if m.numeric else "t")]
        if times and rng.random() < 0.5:
            o["make_time"] = times[0]
        elif e.time and rng.random() < 0.25:
            vals = [n for n in rest[a + c:] if e.col(n)[1] in ("num", "int")]
            o["sec"] = {"t": rng.choice([e.time] + [n for n in rest[a + c:] if e.col(n)[1] == ("nt" if m.numeric else "t")]), "cols": vals[:2]}
            o["new_sec"] = rng.choice(["last_seen", None])
        if rng.random() < 0.08:
            o["add"] = o["add"] + rng.choice([o["add"], [index], [e.time] if e.time else []])
    elif kind == "update":
        o["rows"] = new_rows(rng, m, e, keep=0.6)
        bad = rng.choice([None] * 8 + ["dup", "missing", "extra"])
        if bad == "dup" and o["rows"]:
            o["rows"] = o["rows"] + [dict(rng.choice(o["rows"]))]
        o["bad"] = bad if bad in ("missing", "extra") else None
        o["shuffle"] = rng.randrange(10 ** 6)
    elif kind == "concat":
        o["inplace"] = rng.random() < 0.5
        o["go_on"] = rng.choice(["self", "result"])
        o["rows"] = {q.id: new_rows(rng, m, q, keep=0.5, agree=bool(q.created)) for q in ents}
        o["extra"] = rng.random() < 0.08
    elif kind == "lti":
        o["only"] = [q.id for q in rng.sample(ents, rng.randint(1, len(ents)))] if rng.random() < 0.4 else None
    elif kind == "mark":
        c = rng.choice(e.cols)
        pool = {"sid": ["k1", "k2"], "iid": [1, 2, 3], "cat": ["a", "b", "a"], "code": ["007", "12"], "date": ["2020-01-01"], "note": ["x y"], "int": [1, 2, 2],
                "num": [0.25, 1.5]}.get(c[1])
        if not pool:
            return None
        o.update(n=c[0], values=rng.sample(pool, rng.randint(0, len(pool))))
    elif kind == "interesting":
        o["max"] = rng.choice([1, 2, 5])
        o["whole"] = rng.random() < 0.5
    elif kind == "describe":
        o.update(n=rng.choice(names), text=rng.choice(["what it is", "größe", 'a "q"', None]))
    elif kind == "name":
        o.update(n=rng.choice(names), text=rng.choice(["Title", "größe"]))
    elif kind == "convert":
        c = rng.choice(e.cols)
        o.update(n=c[0] if rng.random() < 0.95 else "no_such", to=rng.choice(["Categorical", "Ordinal", "ZIPCode", "Numeric", "Numeric", "Datetime", "LatLong", "NaturalLanguage"]),
                 data=rng.random() < 0.8)
    elif kind == "delete":
        free = [c[0] for c in e.cols if c[0] not in (e.index, e.time) and not m.linked(e.id, c[0])]
        if not free:
            return None
        o["names"] = rng.sample(free, rng.randint(1, min(2, len(free))))
        if rng.random() < 0.15:
            o["names"] = o["names"] + rng.choice([["no_such"], o["names"][:1]])
    elif kind == "set_time":
        o["n"] = rng.choice(names) if rng.random() < 0.95 else "no_such"
    elif kind == "features":
        o["agg"] = rng.sample(["sum", "count", "last", "max", "num_unique", "mode", "time_since_last"], 2)
        o["trans"] = rng.sample(["is_null", "cum_sum", "month", "diff", "percentile"], 2)
        o["window"] = rng.random() < 0.5
        o["at"] = rng.randrange(21)
    return o


def new_rows(rng, m, e, keep, agree=False):
    """Replacement rows for an entity: some old, some changed, some new; in any order."""
    rows = [dict(r) for r in e.rows if rng.random() < keep]
    if not agree:
        for r in rows:
            if rng.random() < 0.3:
                c = rng.choice(e.cols)
                if c[0] != e.index:
                    r[c[0]] = gen_cell(rng, c[1])
    have = set(r[e.index] for r in e.rows)
    kind = e.col(e.index)[1]
    for i in range(rng.choice([0, 1, 2])):
        v = new_id(rng, kind)
        if v is not None and v not in have:
            have.add(v)
            rows += gen_rows(rng, e.cols, e.index, [v])
    rng.shuffle(rows)
    return rows or [dict(e.rows[0])]


def new_id(rng, kind):
    if kind in ("sid", "cat", "code", "date", "note"):
        return {"sid": "k%d" % rng.randint(1, 9), "cat": rng.choice("abcd"), "code": rng.choice(["007", "12", "5", "30", "9"]), "date": "2020-03-05", "note": None}[kind]
    return rng.randint(-3, 9)


def gen(rng, i):
    m = refes.Model(numeric=rng.random() < 0.12)
    plan = {"numeric": m.numeric, "ops": []}
    for k in range(rng.randint(3, 16)):
        for _ in range(4):
            o = gen_op(rng, m, k)
            if o is None:
                continue
            if m.numeric and o["op"] == "lti":
                continue
            if rng.random() < 0.25:
                o["cut"] = rng.random()
            t = m.copy()
            try:
                step(t, o)
                m = t
            except refes.Refused:
                pass
            except refes.Skip:
                if rng.random() < 0.9:
                    continue
            plan["ops"].append(o)
            break
    return plan


# ---------------------------------------------------------------- the model's side
def step(m, o):
    """Applies the edit to the model. Raises Skip or Refused."""
    k = o["op"]
    if k == "add":
        m.add_entity(o["id"], o["index"], o["time"], o["sec"], o["cols"], o["rows"], o["make"])
    elif k == "relate":
        if not m.ent(o["id"]).has(o["pv"]) or not m.ent(o["child"]).has(o["cv"]):
            raise refes.Skip("column")
        m.add_relationship(o["id"], o["pv"], o["child"], o["cv"])
    elif k == "normalize":
        m.normalize(o["id"], o["new"], o["index"], o["add"], o["copies"], o["make_time"], o["new_time"], o["sec"], o["new_sec"])
    elif k == "update":
        e = m.ent(o["id"])
        if o["bad"]:
            m.copy().update(o["id"], [dict(r) for r in o["rows"]])
            raise refes.Refused()
        m.update(o["id"], o["rows"])
    elif k == "concat":
        if set(o["rows"]) != set(m.ents):
            raise refes.Skip("entities")
        other = m.copy()
        for id, rows in o["rows"].items():
            other.update(id, rows)
        if o["extra"]:
            raise refes.Refused()
        m.concat(other.ents)
    elif k == "lti":
        if m.numeric:
            raise refes.Skip("numeric")
        if o["only"]:
            for id in o["only"]:
                m.ent(id)
        m.add_lti(o["only"])
    elif k == "mark":
        m.mark(o["id"], o["n"], o["values"])
    elif k == "describe":
        m.ent(o["id"]).col(o["n"])
        if o["text"] is None:
            m.ent(o["id"]).desc.pop(o["n"], None)
        else:
            m.ent(o["id"]).desc[o["n"]] = o["text"]
    elif k == "name":
        m.ent(o["id"]).col(o["n"])
        m.ent(o["id"]).names[o["n"]] = o["text"]
    elif k == "convert":
        m.convert(o["id"], o["n"], o["to"], o["data"])
    elif k == "delete":
        m.delete(o["id"], o["names"])
    elif k == "set_time":
        m.set_time(o["id"], o["n"])
    elif k in ("copy", "pickle", "interesting"):
        m.ent(o["id"])
    elif k == "features":
        m.ent(o["id"])


# ---------------------------------------------------------------- the real side
def real(es, o, m, given):
    """Applies the edit to the EntitySet; given: the arguments (kept for a repetition). -> result or None"""
    import random

    import featuretools as ft
    from featuretools import variable_types as vt
    k = o["op"]
    if k == "add":
        return es.entity_from_dataframe(o["id"], given["df"], index=o["index"], time_index=o["time"], make_index=o["make"], variable_types=dict(given["types"]),
                                        secondary_time_index=given["sec"])
    if k == "relate":
        return es.add_relationship(ft.Relationship(es[o["id"]][o["pv"]], es[o["child"]][o["cv"]]))
    if k == "normalize":
        return es.normalize_entity(o["id"], o["new"], o["index"], additional_variables=given["add"], copy_variables=given["copies"], make_time_index=o["make_time"],
                                   new_entity_time_index=o["new_time"], make_secondary_time_index=given["sec"], new_entity_secondary_time_index=o["new_sec"])
    if k == "update":
        return es[o["id"]].update_data(given["df"])
    if k == "concat":
        return es.concat(given["other"], inplace=o["inplace"])
    if k == "lti":
        return es.add_last_time_indexes(given["only"])
    if k == "mark":
        es[o["id"]][o["n"]].interesting_values = list(o["values"])
    elif k == "interesting":
        if o["whole"]:
            es.add_interesting_values(max_values=o["max"])
        else:
            es[o["id"]].add_interesting_values(max_values=o["max"])
    elif k == "describe":
        es[o["id"]][o["n"]].description = o["text"]
    elif k == "name":
        es[o["id"]][o["n"]].name = o["text"]
    elif k == "convert":
        es[o["id"]].convert_variable_type(o["n"], getattr(vt, o["to"]), convert_data=o["data"])
    elif k == "delete":
        es[o["id"]].delete_variables(given["names"])
    elif k == "set_time":
        es[o["id"]].set_time_index(o["n"])
    elif k == "copy":
        return copy.deepcopy(es)
    elif k == "pickle":
        import cloudpickle
        return cloudpickle.loads(cloudpickle.dumps(es))


def arguments(es, o, m):
    import random
    k = o["op"]
    g = {}
    if k == "add":
        g["df"] = refes.frame(o["cols"], o["rows"])
        rest = [c[0] for c in o["cols"] if c[0] != o["index"]]
        g["types"] = refes.types(o["cols"], (o["index"], o["time"] if rest[:1] == [o["time"]] else None))   # the type of a leading time is inferred
        g["sec"] = {n: list(v) for n, v in o["sec"].items()} if o["sec"] else None
    elif k == "normalize":
        g["add"], g["copies"] = list(o["add"]), list(o["copies"])
        g["sec"] = {o["sec"]["t"]: list(o["sec"]["cols"])} if o["sec"] else None
    elif k == "update":
        e = m.ents[o["id"]]
        df = refes.frame(e.cols, o["rows"])
        cols = list(df.columns)
        random.Random(o["shuffle"]).shuffle(cols)
        g["df"] = df[cols]
        if o["bad"] == "missing":
            g["df"] = g["df"].rename(columns={cols[0]: "something_else"})
        elif o["bad"] == "extra":
            g["df"] = g["df"].assign(something_else=1)
    elif k == "concat":
        other = copy.deepcopy(es)
        for id, rows in o["rows"].items():
            other[id].update_data(refes.frame(m.ents[id].cols, rows))
        if o["extra"]:
            e = other.entities[0]
            import featuretools as ft
            other.entity_from_dataframe("one_more", refes.frame([["q", "iid", "Index"], ["v", "num", "Numeric"]], [{"q": 1, "v": 0.5}]), index="q")
        g["other"] = other
    elif k == "lti":
        g["only"] = list(o["only"]) if o["only"] else None
    elif k == "delete":
        g["names"] = list(o["names"])
    return g


def flat(g):
    """the arguments as plain data"""
    from sim.checks import p12
    return {k: escmp.describe(v) if k == "other" else p12.arg(v) for k, v in g.items()}


CUTTABLE = {"add", "relate", "update", "concat", "lti", "mark", "interesting", "describe", "name", "convert", "copy", "pickle"}


def run(plan, ctx):
    import warnings

    import featuretools as ft
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    m = refes.Model("es", plan["numeric"])
    es = ft.EntitySet("es")
    left = []           # (what, EntitySet, description): copies and originals no longer edited
    prev = "start"
    if plan["numeric"]:
        ctx.hit("probe.numeric")
    for no, o in enumerate(plan["ops"]):
        k = o["op"]
        want = m.copy()
        refused = False
        try:
            step(want, o)
        except refes.Skip:
            continue
        except refes.Refused:
            refused = True
            want = m
        except KeyError:
            raise util.Invalid("rows of a shrunk plan")
        ctx.hit("probe." + k)
        if k == "add":
            if o["make"]:
                ctx.hit("probe.make_index")
            if o["sec"]:
                ctx.hit("probe.secondary")
        what = "step %d %s" % (no, {q: v for q, v in o.items() if q not in ("rows", "cut", "cols")})
        if k == "features":
            features(es, m, o, ctx, what)
            continue
        given = arguments(es, o, m)
        before_args = flat(given)
        where = None
        if o.get("cut") is not None and k in CUTTABLE and not refused:
            trial = copy.deepcopy(es)
            tg = arguments(trial, o, m)
            n, _ = lines.count_lines(lambda: real(trial, o, m, tg))
            exc = None
            try:
                with lines.interrupt_at(1 + int(o["cut"] * n), KeyboardInterrupt) as c:
                    try:
                        real(es, o, m, given)
                    finally:
                        where = c.where
            except KeyboardInterrupt as e:
                exc = e
            if exc is not None:
                ctx.hit("probe.interrupted")
                ctx.hit("fault.ctrl_c")
            else:
                where = None
        result = err = None
        if where is None and o.get("cut") is not None and k in CUTTABLE and not refused:
            pass_done = True
        else:
            pass_done = False
        if pass_done and k in ("mark", "interesting", "describe", "name", "convert", "lti", "update"):
            pass        # the interruption did not strike (or was swallowed); the edit has been made
        else:
            try:
                result = real(es, o, m, given)
            except Exception as e:
                err = e
        if where is not None:
            ctx.hit("probe.repeated")
            what += " repeated after an interruption in %s" % where
        if refused:
            ctx.hit("probe.refused")
            ctx.hit("fault.refused_edit")
            if err is None:
                raise Violation("not_refused", what)
        elif err is not None:
            raise Violation("edit_fails", "%s: %s" % (what, calls.describe(err)))
        d = escmp.diff(before_args, flat(given))
        if d:
            raise Violation("argument_altered", "%s: %s" % (what, d))
        if not refused:
            if k == "interesting":
                interesting(es, want, o, what, ctx)
            if k == "concat":
                if o["inplace"]:
                    ctx.hit("probe.inplace")
                    result = es
                elif o["go_on"] == "result":
                    compare(es, m, what + " (operand)", ctx)
                    left.append((what + ": the operand", es, escmp.describe(es)))
                    es = result
                else:
                    compare(result, want, what + " (result)", ctx)
                    left.append((what + ": the result", result, escmp.describe(result)))
                    want = m
                left.append((what + ": the other operand", given["other"], before_args["other"]))
            if k in ("copy", "pickle"):
                compare(result, m, what + " (copy)", ctx)
                left.append((what + ": the original", es, escmp.describe(es)))
                es = result
        m = want
        compare(es, m, what, ctx)
        if any(e.lti is not None for e in m.ents.values()):
            ctx.hit("probe.lti_kept")
        ctx.sigs.add("%s>%s|%s|%s" % (prev, k, "refused" if refused else "ok", where))
        ctx.event(k, refused, where)
        prev = k
    if m.ents:
        o = {"agg": ["sum", "last"], "trans": ["is_null"], "window": False, "at": 30, "id": sorted(m.ents)[0]}
        features(es, m, o, ctx, "at the end")
    for what, q, was in left:
        d = escmp.diff(was, escmp.describe(q))
        if d:
            raise Violation("bystander_altered", "%s changed by later edits of another EntitySet: %s" % (what, d))
    ctx.nontrivial = len(m.ents) > 1
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"ops": [o["op"] for o in plan["ops"]], "entities": len(m.ents), "relationships": len(m.rels)}


def compare(es, m, what, ctx):
    d = escmp.diff(m.describe(), escmp.describe(es))
    if d:
        raise Violation("state_differs", "%s: %s (model versus EntitySet)" % (what, d))
    seen = escmp.metadata(es)
    state = escmp.canon(escmp.describe(es, data=False, lti=False))
    d = escmp.diff(trim(state), trim(seen))
    if d:
        raise Violation("metadata_differs", "%s: %s (EntitySet versus its metadata)" % (what, d))
    es.reset_data_description()
    d = escmp.diff(escmp.metadata(es), seen)
    if d:
        raise Violation("metadata_stale", "%s: %s (recomputed versus metadata)" % (what, d))


def trim(d):
    out = {"relationships": d["relationships"], "entities": {}}
    for k, e in d["entities"].items():
        out["entities"][k] = {q: e[q] for q in ("index", "time_index", "secondary", "variables", "descriptions", "names", "interesting", "columns")}
    return out


def interesting(es, m, o, what, ctx):
    """add_interesting_values may pick among equally frequent values; the rest is determined."""
    for e in m.ents.values():
        if not o["whole"] and e.id != o["id"]:
            continue
        for n, kind, vt in e.cols:
            if vt not in refes.DISCRETE:
                continue
            got = list(es[e.id][n].interesting_values)
            if m.linked(e.id, n):
                e.iv[n] = []
                continue
            counts, values = {}, {}
            for r in e.rows:
                if r[n] is not None:
                    key = refes.plain(kind, r[n])
                    counts[key] = counts.get(key, 0) + 1
                    values[key] = r[n]
            vals = [escmp.plain(v) for v in got]
            size = min(o["max"], len(counts))
            if len(counts) >= 25:
                ctx.hit("probe.many_values")
                total = sum(counts.values())
                best = sorted(counts.values(), reverse=True)[:size]
                size = next((i for i, c in enumerate(best) if not 0.05 < c / total < 0.95), size)
                if size:
                    ctx.hit("probe.many_values_some_frequent")
            if len(set(vals)) < len(vals) or any(v not in counts for v in vals) or len(vals) != size or \
                    vals and min(counts[v] for v in vals) < max([c for v, c in counts.items() if v not in vals] or [0]):
                raise Violation("interesting_values", "%s: %s.%s has %s; counts %s" % (what, e.id, n, vals, counts))
            vals = [values[v] for v in vals]
            e.iv[n] = vals


def features(es, m, o, ctx, what):
    """Features of the edited EntitySet and of one built at once with the same contents."""
    import featuretools as ft
    from sim.checks import p12
    if not m.rels and o["at"] == 30:
        return
    window = o["window"] and not m.numeric and all(e.lti is not None for e in m.ents.values())
    if window:
        n = m.copy()
        n.add_lti()
        if any(n.ents[e].lti != m.ents[e].lti for e in n.ents):
            window = False
    if window:
        ctx.hit("probe.window")
    twin = refes.fresh(m, window)
    out = []
    for x in (es, twin):
        try:
            kw = {"cutoff_time": o["at"] if m.numeric else W.ts({"numeric_time": False}, o["at"] * 60)}
            if window:
                kw["training_window"] = "3 hours"
            fm, fl = ft.dfs(entityset=x, target_entity=o["id"], agg_primitives=[p for p in o["agg"] if not (m.numeric and p == "time_since_last")],
                            trans_primitives=o["trans"], max_depth=2, max_features=25, **kw)
            out.append([p12.cells(fm), [p12.feature(f) for f in fl]])
        except Exception as e:
            out.append(["raises", type(e).__name__, str(e)[:300]])
    d = escmp.diff(out[1], out[0])
    if d:
        raise Violation("features_differ", "%s: %s (built at once versus edited)" % (what, d))
