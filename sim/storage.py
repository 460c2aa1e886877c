"""EntitySets with all kinds of columns, for the checks of storage."""
import random

from sim import workload as W

TEXTS = ["plain", "with,comma", 'with "quotes"', "line\nbreak", "naïve ünïcode ☃", " padded ", "semi;colon", "tab\there", "'single'", "a" * 60, "\\back"]
CODES = ["007", "01234", "12", "1e5", "0x1F", "1.50", "True", "2020-01-01", "1_000"]
NAS = ["NA", "null", "None", "nan", "N/A", "n/a", "-"]


def gen_extras(rng, ds):
    out = []
    for e in ds["entities"]:
        for k in rng.sample(["text", "code", "nas", "latlong", "float", "big", "obool", "dt_ns", "span", "ordinal", "category", "Int64", "boolean", "bigdate",
                             "date_only", "uint8", "float32", "empty"], rng.choice([0, 1, 1, 2, 3])):
            out.append({"e": e["id"], "k": k, "seed": rng.randrange(10 ** 6), "nulls": rng.random() < 0.4})
    return out


def extra_series(x, n):
    import numpy as np
    import pandas as pd
    r = random.Random(x["seed"])
    k = x["k"]
    null = lambda: x["nulls"] and r.random() < 0.25
    if k in ("text", "code", "nas"):
        pool = {"text": TEXTS, "code": CODES, "nas": NAS + ["plain"]}[k]
        return pd.Series([np.nan if null() else r.choice(pool) for _ in range(n)], dtype="object")
    if k == "latlong":
        return pd.Series([(np.nan, np.nan) if null() else (r.uniform(-90, 90), round(r.uniform(-180, 180), 3)) for _ in range(n)], dtype="object")
    if k == "float":
        return pd.Series([np.nan if null() else r.choice([r.random() * 10 ** r.randint(-12, 12), 0.1 + 0.2, 1 / 3.0, 1e300, float("inf"), -0.0]) for _ in range(n)], dtype="float64")
    if k == "float32":
        return pd.Series([np.nan if null() else r.random() for _ in range(n)], dtype="float32")
    if k == "big":
        return pd.Series([r.choice([2 ** 53 + 1, -2 ** 62, 1500000000, 10 ** 15, 3]) for _ in range(n)], dtype="int64")
    if k == "uint8":
        return pd.Series([r.randrange(256) for _ in range(n)], dtype="uint8")
    if k == "obool":
        return pd.Series([None if null() else r.random() < 0.5 for _ in range(n)], dtype="object")
    if k == "dt_ns":
        return pd.Series([pd.NaT if null() else pd.Timestamp(1580000000000000000 + r.randrange(10 ** 17)) for _ in range(n)], dtype="datetime64[ns]")
    if k == "bigdate":
        return pd.Series([pd.NaT if null() else pd.Timestamp(r.choice(["1700-01-01", "2250-12-31", "1969-12-31 23:59:59"])) for _ in range(n)], dtype="datetime64[ns]")
    if k == "date_only":
        return pd.Series([pd.NaT if null() else pd.Timestamp("2020-01-01") + pd.Timedelta(days=r.randrange(400)) for _ in range(n)], dtype="datetime64[ns]")
    if k == "span":
        return pd.Series([pd.NaT if null() else pd.Timedelta(r.randrange(10 ** 13) * 1000) for _ in range(n)], dtype="timedelta64[ns]")
    if k == "ordinal":
        return pd.Series([r.randrange(5) for _ in range(n)], dtype="int64")
    if k == "category":
        return pd.Series(pd.Categorical([np.nan if null() else r.choice("xyz") for _ in range(n)], categories=list("xyz")))
    if k == "Int64":
        return pd.Series([pd.NA if null() else r.randrange(99) for _ in range(n)], dtype="Int64")
    if k == "boolean":
        return pd.Series([pd.NA if null() else r.random() < 0.5 for _ in range(n)], dtype="boolean")
    if k == "empty":
        return pd.Series([np.nan] * n, dtype="object")
    raise ValueError(k)


VT = {"text": "NaturalLanguage", "code": "ZIPCode", "nas": "Categorical", "latlong": "LatLong", "float": "Numeric", "float32": "Numeric", "big": "Numeric",
      "obool": "Boolean", "dt_ns": "Datetime", "bigdate": "DateOfBirth", "date_only": "Datetime", "span": "Timedelta", "ordinal": "Ordinal",
      "category": "Categorical", "Int64": "Numeric", "boolean": "Boolean", "uint8": "Numeric", "empty": "NaturalLanguage"}


def build(ds, extras=(), marks=(), npartitions=None, es_id=None, drop=None):
    """marks: [(entity, variable, [interesting values])]."""
    import featuretools as ft
    from featuretools import variable_types as vt
    es = ft.EntitySet(es_id or ds["id"])

    def add(e):
        df = W.frame(ds, e)
        types = W.variable_types(ds, e, npartitions is not None)
        for x in extras:
            if x["e"] == e["id"]:
                name = x.get("n") or "z_" + x["k"]
                df[name] = extra_series(x, len(df))
                types[name] = getattr(vt, VT[x["k"]])
        kw = {}
        if e["sec"]:
            kw["secondary_time_index"] = {k: list(v) for k, v in e["sec"].items()}
        if npartitions is not None:
            df = W.to_dask(ds, e, df, npartitions.get(e["id"], 2))
        es.entity_from_dataframe(e["id"], df, index=e["cols"][0]["n"], time_index=W.time_col(e), variable_types=types, **kw)
    for e in ds["entities"]:
        if e["id"] != drop:
            add(e)
    for p, c, fk in ds["rels"]:
        if drop not in (p, c):
            es.add_relationship(ft.Relationship(es[p][W.entity(ds, p)["cols"][0]["n"]], es[c][fk]))
    if ds["lti"]:
        es.add_last_time_indexes()
    if ds.get("lone"):
        add(ds["lone"])          # an entity of which no last time index is known
    for m in marks:
        if m["e"] != drop:
            if m.get("values") is not None:
                es[m["e"]][m["v"]].interesting_values = [W.ts(ds, v) for v in m["values"]] if m.get("times") else m["values"]
            if m.get("name"):
                es[m["e"]][m["v"]].name = m["name"]
            if m.get("description"):
                es[m["e"]][m["v"]].description = m["description"]
    es.reset_data_description()
    return es


def gen_marks(rng, ds, extras):
    out = []
    for e in ds["entities"]:
        for c in e["cols"]:
            if c["t"] == "cat" and rng.random() < 0.4:
                out.append({"e": e["id"], "v": c["n"], "values": rng.choice([["a"], ["a", "c"], ["1", "02"], ["2020-01-01", "x"], ["1500000000", "3"]])})
            elif c["t"] == "int" and rng.random() < 0.3:
                out.append({"e": e["id"], "v": c["n"], "values": rng.choice([[1, 2], [1500000000, 3], [1500000000], [0]])})
            elif c["t"] == "num" and rng.random() < 0.2:
                out.append({"e": e["id"], "v": c["n"], "values": rng.choice([[1.5], [0.25, -3.0], [1600000000.0]])})
            elif c["t"] == "bool" and rng.random() < 0.3:
                out.append({"e": e["id"], "v": c["n"], "values": rng.choice([[True], [True, False]])})
            elif c["t"] in ("dt", "time") and rng.random() < 0.2:
                out.append({"e": e["id"], "v": c["n"], "values": sorted(rng.sample(range(ds["slots"]), 2)), "times": True})
            if rng.random() < 0.07:
                out.append({"e": e["id"], "v": c["n"], "name": rng.choice(["Title", "größe"])})
            if rng.random() < 0.1:
                out.append({"e": e["id"], "v": c["n"], "description": rng.choice(["the größe of it", 'a "quoted" thing'])})
    for x in extras:
        if x["k"] == "code" and rng.random() < 0.5:
            out.append({"e": x["e"], "v": "z_code", "values": ["007", "12"]})
    return out
