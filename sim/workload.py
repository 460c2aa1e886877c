"""Seeded generators of entitysets, features and cutoff tables (plain JSON), and the builders
that turn them into real featuretools objects through the public API."""
import datetime as _dt
import math

BASE = _dt.datetime(2020, 2, 27, 21, 0)       # minute 0 of simulated history
NAMES = ["customers", "sessions", "log", "items", "stores", "visits", "orders"]


# ------------------------------------------------------------------ time values
def ts(ds, m):
    """JSON time value (minutes, or a plain number in numeric entitysets) -> runtime value."""
    import pandas as pd
    if m is None:
        return float("nan") if ds["numeric_time"] else pd.NaT
    if ds["numeric_time"]:
        return m - ds.get("zero", 0)
    return pd.Timestamp(BASE) + pd.Timedelta(minutes=m)


def untime(v):
    """runtime time value -> minutes."""
    import pandas as pd
    if isinstance(v, (pd.Timestamp, _dt.datetime)):
        d = pd.Timestamp(v) - pd.Timestamp(BASE)
        return d.total_seconds() / 60.0
    return v


# ------------------------------------------------------------------ datasets
def gen_dataset(rng, numeric=None, sizes=(3, 14), n_entities=None, dask=False, sec=True, dense=False,
                time_always=False, orphans=True, bool_cols=True):
    n = n_entities or rng.choice([2, 2, 3, 3, 3, 4, 4])
    numeric = (rng.random() < 0.15) if numeric is None else numeric
    step = 1 if numeric else rng.choice([1, 30, 360, 360, 720, 1440, 1440 * 9])
    slots = rng.choice([6, 12, 20])
    str_ids = rng.random() < 0.4
    names = rng.sample(NAMES, n)
    ents, rels = [], []
    for k, name in enumerate(names):
        cols = [{"n": name + "_id", "t": "index"}]
        has_t = time_always or rng.random() < (0.9 if k == n - 1 else 0.7)
        if has_t:
            cols.append({"n": rng.choice(["ts", name + "_time"]), "t": "time"})
        parents = []
        if k > 0:
            parents.append(rng.randrange(k) if rng.random() < 0.45 else k - 1)
            if rng.random() < 0.35:
                parents.append(rng.randrange(k))
        for j, p in enumerate(parents):
            cn = names[p] + "_id" if parents.index(p) == j else names[p] + "_id_2"
            cols.append({"n": cn, "t": "fk", "to": names[p]})
            rels.append([names[p], name, cn])
        cols.append({"n": "x", "t": "num"})
        if rng.random() < 0.5:
            cols.append({"n": "n", "t": "int"})
        if bool_cols and rng.random() < 0.6:
            cols.append({"n": "flag", "t": "bool"})
        cols.append({"n": "kind", "t": "cat"})
        secd = None
        if sec and rng.random() < (0.45 if has_t else 0.25):
            cols.append({"n": "closed", "t": "sectime"})
            cols.append({"n": "outcome", "t": "num"})
            cols.append({"n": "verdict", "t": "cat"})
            secd = {"closed": rng.choice([["outcome"], ["outcome", "verdict"], ["verdict", "outcome"]])}
        if not numeric and rng.random() < 0.3:
            cols.append({"n": "when", "t": "dt"})
        ents.append({"id": name, "cols": cols, "time": has_t, "sec": secd, "rows": []})
    ds = {"id": "es", "numeric_time": numeric, "step": step, "slots": slots, "str_ids": str_ids,
          "entities": ents, "rels": rels, "lti": rng.random() < 0.5}
    if numeric:
        ds["zero"] = rng.choice([0, 0, slots // 2, slots + 3])      # numeric times may well be negative
    for k, e in enumerate(ents):
        lo, hi = sizes
        cnt = rng.randint(lo, hi) if k else rng.randint(2, max(3, hi // 2))
        if k == n - 1 and dense:
            cnt = hi
        ids = rng.sample(range(1, 4 * hi), cnt)
        for i in ids:
            e["rows"].append(gen_row(rng, ds, e, i, orphans))
    return ds


def idval(ds, i):
    return "k%03d" % i if ds["str_ids"] else i


def gen_row(rng, ds, e, i, orphans=True, at=None):
    row = []
    t = None
    for c in e["cols"]:
        k = c["t"]
        if k == "index":
            v = idval(ds, i)
        elif k == "time":
            t = at if at is not None else rng.randrange(ds["slots"]) * ds["step"]
            v = t
        elif k == "fk":
            parent = entity(ds, c["to"])
            pids = [r[0] for r in parent["rows"]]
            if orphans and rng.random() < 0.06:
                v = idval(ds, 900 + rng.randrange(5))
            else:
                v = rng.choice(pids) if pids else idval(ds, 900)
        elif k == "num":
            v = None if rng.random() < 0.12 else rng.randint(-40, 60) / 4.0
        elif k == "int":
            v = rng.randint(-5, 9)
        elif k == "bool":
            v = rng.random() < 0.5
        elif k == "cat":
            v = None if rng.random() < 0.08 else rng.choice(["a", "b", "c"])
        elif k == "sectime":
            v = (t if t is not None else 0) + rng.choice([0, 1, 1, 2, 4, 8]) * ds["step"]
        elif k == "dt":
            v = rng.randrange(ds["slots"]) * ds["step"]
        else:
            raise ValueError(k)
        row.append(v)
    return row


def entity(ds, name):
    for e in ds["entities"]:
        if e["id"] == name:
            return e
    raise KeyError(name)


def col(e, name):
    for j, c in enumerate(e["cols"]):
        if c["n"] == name:
            return j
    raise KeyError(name)


def col_of_type(e, t):
    return [c["n"] for c in e["cols"] if c["t"] == t]


def time_col(e):
    c = col_of_type(e, "time")
    return c[0] if c else None


# ------------------------------------------------------------------ real objects
def frame(ds, e, rows=None):
    import numpy as np
    import pandas as pd
    rows = e["rows"] if rows is None else rows
    data = {}
    for j, c in enumerate(e["cols"]):
        vals = [r[j] for r in rows]
        k = c["t"]
        if k in ("time", "sectime", "dt"):
            if ds["numeric_time"]:
                s = pd.Series([ts(ds, v) for v in vals], dtype="int64" if all(v is not None for v in vals) else "float64")
            else:
                s = pd.Series([ts(ds, v) for v in vals], dtype="datetime64[ns]")
        elif k == "num":
            s = pd.Series([np.nan if v is None else float(v) for v in vals], dtype="float64")
        elif k == "int":
            s = pd.Series(vals, dtype="int64")
        elif k == "bool":
            s = pd.Series(vals, dtype="bool")
        elif k == "cat":
            s = pd.Series([np.nan if v is None else v for v in vals], dtype="object")
        else:
            s = pd.Series(vals, dtype="object" if ds["str_ids"] else "int64")
        data[c["n"]] = s
    return pd.DataFrame(data, columns=[c["n"] for c in e["cols"]])


def variable_types(ds, e, full=False):
    from featuretools import variable_types as vt
    out = {}
    for c in e["cols"]:
        k = c["t"]
        if full and k in ("index", "time"):
            out[c["n"]] = vt.Index if k == "index" else (vt.NumericTimeIndex if ds["numeric_time"] else vt.DatetimeTimeIndex)
        if k in ("num", "int"):
            out[c["n"]] = vt.Numeric
        elif k == "bool":
            out[c["n"]] = vt.Boolean
        elif k == "cat":
            out[c["n"]] = vt.Categorical
        elif k == "dt":
            out[c["n"]] = vt.Datetime
        elif k == "sectime":
            out[c["n"]] = vt.Numeric if ds["numeric_time"] else vt.Datetime
        elif k == "fk":
            out[c["n"]] = vt.Id
    return out


def build_es(ds, rows=None, npartitions=None, lti=None, es_id=None):
    """rows: optional {entity: rows} overriding the rows. npartitions: {entity: n} -> dask frames."""
    import featuretools as ft
    es = ft.EntitySet(ds["id"] if es_id is None else es_id)
    for e in ds["entities"]:
        df = frame(ds, e, None if rows is None else rows[e["id"]])
        kw = {}
        if e["sec"]:
            kw["secondary_time_index"] = {k: list(v) for k, v in e["sec"].items()}
        if npartitions is not None:
            df = to_dask(ds, e, df, npartitions[e["id"]])
        es.entity_from_dataframe(e["id"], df, index=e["cols"][0]["n"], time_index=time_col(e),
                                 variable_types=variable_types(ds, e, npartitions is not None), **kw)
    for p, c, fk in ds["rels"]:
        es.add_relationship(ft.Relationship(es[p][entity(ds, p)["cols"][0]["n"]], es[c][fk]))
    if ds["lti"] if lti is None else lti:
        es.add_last_time_indexes()
    return es


def to_dask(ds, e, df, cuts):
    """cuts: list of partition sizes' cut points (row offsets); may make empty partitions."""
    import dask.dataframe as dd
    if isinstance(cuts, int):
        return dd.from_pandas(df, npartitions=cuts, sort=False)
    parts, last = [], 0
    for c in list(cuts) + [len(df)]:
        c = max(last, min(c, len(df)))
        parts.append(df.iloc[last:c])
        last = c
    from dask import delayed
    return dd.from_delayed([delayed(p) for p in parts], meta=df.iloc[:0])


# ------------------------------------------------------------------ features
AGG = {  # primitive -> (input kinds, output kind)
    "Count": (["index"], "num"), "Sum": (["num"], "num"), "Mean": (["num"], "num"), "Max": (["num"], "num"),
    "Min": (["num"], "num"), "Median": (["num"], "num"), "NumUnique": (["disc"], "num"), "Mode": (["disc"], "cat"),
    "NumTrue": (["bool"], "num"), "PercentTrue": (["bool"], "num"), "All": (["bool"], "obool"), "Any": (["bool"], "obool"),
    "Last": (["any"], "same"), "First": (["any"], "same"), "TimeSinceLast": (["ti"], "num"), "TimeSinceFirst": (["ti"], "num"),
    "AvgTimeBetween": (["ti"], "num"), "SimMinMax": (["num"], "multi"), "SimDot": (["num", "num"], "num"),
}
TRANS = {
    "Absolute": (["num"], "num"), "Negate": (["num"], "num"), "AddNumericScalar": (["num"], "num"),
    "AddNumeric": (["num", "num"], "num"), "SubtractNumeric": (["num", "num"], "num"), "MultiplyNumeric": (["num", "num"], "num"),
    "GreaterThanScalar": (["num"], "bool"), "LessThanEqualToScalar": (["num"], "bool"), "EqualScalar": (["cat"], "bool"),
    "IsNull": (["any"], "bool"), "Not": (["bool"], "bool"), "And": (["bool", "bool"], "bool"), "Or": (["bool", "bool"], "bool"),
    "Hour": (["dt"], "onum"), "Day": (["dt"], "onum"), "Month": (["dt"], "onum"), "TimeSince": (["dt"], "num"),
    "Diff": (["num"], "num"), "CumSum": (["num"], "num"), "CumCount": (["disc"], "num"), "CumMean": (["num"], "num"),
    "CumMin": (["num"], "num"), "CumMax": (["num"], "num"), "Percentile": (["num"], "num"), "TimeSincePrevious": (["ti"], "num"),
    "SimSplit": (["num"], "multi"),
}
FULL = {"Diff", "CumSum", "CumCount", "CumMean", "CumMin", "CumMax", "Percentile", "TimeSincePrevious"}
DATETIME_ONLY = {"TimeSinceLast", "TimeSinceFirst", "AvgTimeBetween", "TimeSincePrevious", "Hour", "Day", "Month", "TimeSince"}
DASK_AGG = {"Count", "Sum", "Mean", "Max", "Min", "NumUnique", "NumTrue", "PercentTrue", "All", "Any"}
DASK_TRANS = {"Absolute", "Negate", "AddNumericScalar", "AddNumeric", "SubtractNumeric", "MultiplyNumeric", "GreaterThanScalar",
              "LessThanEqualToScalar", "EqualScalar", "IsNull", "Not", "And", "Or", "Hour", "Day", "Month"}


class FeatGen:
    """Random well-typed feature trees. Kinds: num, onum (numeric output that must not be an input of
    further numeric features), bool (never null), obool (may be null), cat, dt, id, multi."""

    def __init__(self, rng, ds, agg=None, trans=None, full=True, groupby=True, prev=True, where=True, multi=True,
                 calc_time=True, depth=3, slices=True):
        self.rng, self.ds = rng, ds
        self.agg = sorted(agg if agg is not None else AGG)
        self.trans = sorted(trans if trans is not None else TRANS)
        if not full:
            self.trans = [t for t in self.trans if t not in FULL]
        if ds["numeric_time"]:
            self.agg = [a for a in self.agg if a not in DATETIME_ONLY]
            self.trans = [a for a in self.trans if a not in DATETIME_ONLY]
        if not calc_time:
            self.agg = [a for a in self.agg if a not in ("TimeSinceLast", "TimeSinceFirst")]
            self.trans = [a for a in self.trans if a != "TimeSince"]
        if not multi:
            self.agg = [a for a in self.agg if a != "SimMinMax"]
            self.trans = [a for a in self.trans if a != "SimSplit"]
        self.o = dict(full=full, groupby=groupby, prev=prev, where=where, slices=slices)
        self.depth = depth

    # -- paths
    def back_paths(self, e):
        """[(list of rel indexes from parent downwards, descendant)]"""
        out = []
        for i, (p, c, fk) in enumerate(self.ds["rels"]):
            if p == e:
                out.append(([i], c))
                for j, (p2, c2, fk2) in enumerate(self.ds["rels"]):
                    if p2 == c:
                        out.append(([i, j], c2))
        return out

    def fwd(self, e):
        return [(i, p) for i, (p, c, fk) in enumerate(self.ds["rels"]) if c == e]

    def identity(self, e, want):
        if want == "top":
            want = "any"
        ent = entity(self.ds, e)
        kinds = {"num": ["num", "int"], "bool": ["bool"], "cat": ["cat"], "disc": ["cat", "fk"], "dt": ["dt", "time", "sectime"],
                 "index": ["index"], "ti": ["time"], "any": ["num", "int", "bool", "cat", "dt", "fk", "sectime"], "id": ["fk"]}[want]
        if self.ds["numeric_time"] and want == "dt":
            return None
        opts = [c for c in ent["cols"] if c["t"] in kinds]
        if want == "any":
            # bool columns can become null through parents/visibility; as 'any' input that is fine
            pass
        if not opts:
            return None
        c = self.rng.choice(opts)
        kind = {"num": "num", "int": "num", "bool": "bool", "cat": "cat", "fk": "id", "index": "index",
                "time": "dt", "sectime": "dt", "dt": "dt"}[c["t"]]
        if self.ds["numeric_time"] and kind == "dt":
            kind = "num"
        return {"k": "id", "e": e, "v": c["n"]}, kind

    def gen(self, e, want, depth):
        """-> (spec, kind) or None"""
        rng = self.rng
        if want in ("index", "ti", "id"):
            return self.identity(e, want)
        for _ in range(6):
            if depth <= 0 or rng.random() < 0.25:
                r = self.identity(e, want)
            else:
                r = rng.choice([self.g_agg, self.g_agg, self.g_trans, self.g_trans, self.g_dir, self.g_gb])(e, depth)
                if r is not None and not self.fits(r[1], want):
                    r = None
            if r is not None:
                return r
        return self.identity(e, want)

    def fits(self, kind, want):
        if want == "top":
            return True
        if want == "any":
            return kind in ("num", "onum", "cat", "dt", "id", "bool", "obool")
        if want == "disc":
            return kind in ("cat", "id")
        return kind == want

    def g_agg(self, e, depth):
        rng = self.rng
        paths = self.back_paths(e)
        if not paths:
            return None
        path, child = rng.choice(paths)
        p = rng.choice(self.agg)
        ins, out = AGG[p]
        base = []
        for w in ins:
            r = self.gen(child, w, depth - 1)
            if r is None:
                return None
            base.append(r)
        if len(base) == 2 and base[0][0] == base[1][0]:
            return None
        if out == "same":
            out = base[0][1]
            if out == "bool":
                out = "obool"
            if out in ("multi", "index"):
                return None
        spec = {"k": "agg", "p": p, "b": [b[0] for b in base], "e": e, "path": path}
        cent = entity(self.ds, child)
        if self.o["prev"] and cent["time"] and not self.ds["numeric_time"] and rng.random() < 0.25:
            if rng.random() < 0.4:
                spec["prev"] = [rng.randint(1, 4), "o"]
            else:
                spec["prev"] = rng.choice([[2 * self.ds["step"], "m"], [self.ds["step"], "m"], [12, "h"], [3, "d"], [1, "w"],
                                            [[1, "d"], [self.ds["step"], "m"]], [[self.ds["step"], "m"], [30, "s"]]])
        if self.o["where"] and rng.random() < 0.25:
            w = self.gen_where(child)
            if w is not None:
                spec["where"] = w
        if out == "multi":
            if self.o["slices"] and rng.random() < 0.6:
                return {"k": "slice", "b": spec, "n": rng.randrange(2)}, "num"
        return spec, out

    def gen_where(self, child):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            return {"k": "tr", "p": "EqualScalar", "args": {"value": rng.choice(["a", "b", "c"])},
                    "b": [{"k": "id", "e": child, "v": "kind"}], "e": child}
        if r < 0.8:
            return {"k": "tr", "p": "GreaterThanScalar", "args": {"value": rng.randint(-3, 6)},
                    "b": [{"k": "id", "e": child, "v": "x"}], "e": child}
        b = self.identity(child, "bool")
        return b[0] if b else None

    def g_trans(self, e, depth):
        rng = self.rng
        p = rng.choice(self.trans)
        ins, out = TRANS[p]
        base = []
        for w in ins:
            r = self.gen(e, w, depth - 1)
            if r is None:
                return None
            base.append(r)
        if len(base) == 2 and base[0][0] == base[1][0]:
            return None
        if p == "Not" and base[0][1] != "bool":
            return None
        spec = {"k": "tr", "p": p, "b": [b[0] for b in base], "e": e}
        if p in ("AddNumericScalar", "GreaterThanScalar", "LessThanEqualToScalar"):
            spec["args"] = {"value": rng.randint(-4, 8)}
        if p == "EqualScalar":
            spec["args"] = {"value": rng.choice(["a", "b", "c"])}
        if out == "multi" and self.o["slices"] and rng.random() < 0.6:
            return {"k": "slice", "b": spec, "n": rng.randrange(2)}, "num"
        return spec, out

    def g_gb(self, e, depth):
        rng = self.rng
        if not self.o["groupby"]:
            return None
        p = rng.choice(["CumSum", "CumCount", "CumMean", "Diff", "CumMax", "CumMin", "Percentile"])
        if p not in self.trans:
            return None
        b = self.gen(e, TRANS[p][0][0], depth - 1)
        g = self.identity(e, "disc") if rng.random() < 0.75 else self.gen(e, "disc", depth - 1)
        if b is None or g is None or (b[0] == g[0] and rng.random() < 0.5):
            return None
        return {"k": "gb", "p": p, "b": [b[0]], "g": g[0], "e": e}, "num"

    def g_dir(self, e, depth):
        rng = self.rng
        f = self.fwd(e)
        if not f:
            return None
        i, parent = rng.choice(f)
        r = self.gen(parent, "top" if rng.random() < 0.5 else rng.choice(["num", "cat", "any"]), depth - 1) \
            if depth > 1 or rng.random() < 0.5 else self.identity(parent, "any")
        if r is None:
            return None
        kind = r[1]
        if kind == "index":
            return None
        if kind == "bool":
            kind = "obool"
        if kind == "onum":
            kind = "onum"
        return {"k": "dir", "b": r[0], "e": e, "rel": i}, kind

    def features(self, target, n):
        out, seen = [], set()
        tries = 0
        while len(out) < n and tries < 60:
            tries += 1
            w = self.rng.random()
            if w < 0.4:
                r = self.g_agg(target, self.depth)
            elif w < 0.65:
                r = self.g_dir(target, self.depth)
            elif w < 0.8:
                r = self.g_trans(target, self.depth)
            elif w < 0.9:
                r = self.g_gb(target, self.depth)
            else:
                r = self.identity(target, "any")
            if r is None or r[1] == "index" or r[0]["k"] == "slice":   # a slice is no calculable feature by itself
                continue
            key = repr(r[0])
            if key in seen or name_clash(r[0], out):
                continue
            seen.add(key)
            out.append(r[0])
        if len(out) > 1 and self.rng.random() < 0.3:
            # the same aggregation over another time span or condition
            for s in [x for x in out if x["k"] == "agg"][:1]:
                v = {k: x for k, x in s.items() if k not in ("prev", "where")}
                if self.o["prev"] and entity(self.ds, self.ds["rels"][s["path"][-1]][1])["time"] and not self.ds["numeric_time"]:
                    st = self.ds["step"]
                    v["prev"] = self.rng.choice([[2 * st, "m"], [1, "d"], [[1, "d"], [st, "m"]], [[1, "h"], [3 * st, "m"]], [[2, "d"], [1, "h"]]])
                if repr(v) not in seen and not name_clash(v, out):
                    out.insert(self.rng.randrange(len(out) + 1), v)
        if not out:
            out.append({"k": "id", "e": target, "v": "x"})
        return out


def name_clash(spec, others):
    """Two different sub-features with one display name on one entity (a 1 vs 1.0 style clash) cannot
    be told apart by featuretools; never generated."""
    return False


def make_prim(p, args=None):
    import featuretools.primitives as fp
    from sim import prims
    cls = getattr(prims, p, None) or getattr(fp, p)
    return cls(**(args or {}))


def build_feature(spec, es, memo=None):
    import featuretools as ft
    memo = {} if memo is None else memo
    key = repr(spec)
    if key in memo:
        return memo[key]
    k = spec["k"]
    if k == "id":
        f = ft.IdentityFeature(es[spec["e"]][spec["v"]])
    elif k == "agg":
        rels = [es.relationships[i] for i in spec["path"]]
        from featuretools.entityset.relationship import RelationshipPath
        kw = {}
        if spec.get("prev"):
            kw["use_previous"] = timedelta(spec["prev"])
        if spec.get("where"):
            kw["where"] = build_feature(spec["where"], es, memo)
        f = ft.AggregationFeature([build_feature(b, es, memo) for b in spec["b"]], es[spec["e"]],
                                  make_prim(spec["p"], spec.get("args")),
                                  relationship_path=RelationshipPath([(False, r) for r in rels]), **kw)
    elif k == "tr":
        f = ft.TransformFeature([build_feature(b, es, memo) for b in spec["b"]], make_prim(spec["p"], spec.get("args")))
    elif k == "gb":
        f = ft.GroupByTransformFeature([build_feature(b, es, memo) for b in spec["b"]], make_prim(spec["p"], spec.get("args")),
                                       build_feature(spec["g"], es, memo))
    elif k == "dir":
        f = ft.DirectFeature(build_feature(spec["b"], es, memo), es[spec["e"]], relationship=es.relationships[spec["rel"]])
    elif k == "slice":
        f = build_feature(spec["b"], es, memo)[spec["n"]]
    else:
        raise ValueError(k)
    if spec.get("name"):
        f = f.rename(spec["name"])
    memo[key] = f
    return f


def build_features(specs, es):
    memo = {}
    return [build_feature(s, es, memo) for s in specs]


# ------------------------------------------------------------------ cutoff tables
def timedelta(w):
    """A Timedelta from [value, unit] or a list of those."""
    import featuretools as ft
    if isinstance(w[0], (list, tuple)):
        return ft.Timedelta({u: v for v, u in w})
    return ft.Timedelta(w[0], w[1])


def gen_cutoffs(rng, ds, target, n=None, unknown=True, times=None):
    e = entity(ds, target)
    ids = [r[0] for r in e["rows"]]
    n = n or rng.randint(1, 14)
    if times is None:
        k = rng.choice([1, 2, 3, 5, 9])
        times = [rng.randint(-1, ds["slots"] + 2) * ds["step"] + rng.choice([0, 0, 0, 1]) * (0 if ds["numeric_time"] else 1)
                 for _ in range(k)]
    rows, seen = [], set()
    for _ in range(n * 3):
        if len(rows) >= n:
            break
        i = rng.choice(ids) if (ids and not (unknown and rng.random() < 0.08)) else idval(ds, 950 + rng.randrange(4))
        t = rng.choice(times)
        if (i, t) in seen:
            continue
        seen.add((i, t))
        rows.append([i, t])
    style = rng.choice(["plain", "plain", "named"])
    extra = rng.choice([[], [], ["label"], ["label", "fold"]])
    return {"rows": rows, "style": style, "extra": extra, "in_index": rng.random() < 0.6, "index0": rng.random() < 0.3}


def cutoff_frame(ds, target, ct):
    import pandas as pd
    e = entity(ds, target)
    idname = "instance_id" if ct["style"] == "plain" else e["cols"][0]["n"]
    tname = "time"
    if ct["style"] == "named" and time_col(e):
        tname = time_col(e)
    df = pd.DataFrame({
        idname: pd.Series([r[0] for r in ct["rows"]], dtype="object" if ds["str_ids"] else "int64"),
        tname: pd.Series([ts(ds, r[1]) for r in ct["rows"]], dtype=None if ds["numeric_time"] else "datetime64[ns]"),
    })
    for x in ct["extra"]:
        df[x] = [pass_value(x, r) for r in ct["rows"]]
    if ct.get("index0"):
        df.index = range(100, 100 + len(df))
    return df


def pass_value(x, r):
    return "%s/%s/%s" % (x, r[0], r[1])
