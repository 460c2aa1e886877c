"""Describe an EntitySet as plain data and compare two of them."""


def plain(v):
    """A cell as something comparable exactly: type kind + value; all nulls alike."""
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT or v is pd.NA:
        return None
    if isinstance(v, (list, tuple)):
        return ("seq",) + tuple(plain(x) for x in v)
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        v = pd.Timestamp(v)
        return None if v is pd.NaT else ("time", v.value if v.tzinfo is None else (v.value, str(v.tzinfo)))
    if isinstance(v, (pd.Timedelta, np.timedelta64)):
        v = pd.Timedelta(v)
        return None if v is pd.NaT else ("span", v.value)
    if isinstance(v, (bool, np.bool_)):
        return ("bool", bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        if v != v:
            return None
        return ("num", int(v) if float(v).is_integer() and abs(v) < 2 ** 53 else float(v))
    if isinstance(v, str):
        return v
    import datetime
    if isinstance(v, datetime.datetime):
        return ("time", pd.Timestamp(v).value)
    return ("other", repr(v))


def frame(df):
    if hasattr(df, "compute"):
        df = df.compute()
    return df


def describe(es, data=True, lti=True):
    """-> nested dict: entities (columns, dtypes, indexes, variable types, values), relationships."""
    out = {"id": es.id, "entities": {}, "relationships": [], "time_type": getattr(es.time_type, "__name__", es.time_type)}
    for e in es.entities:
        kind = type(e.df).__module__.split(".")[0]
        df = frame(e.df)
        d = {"kind": kind, "index": e.index, "time_index": e.time_index,
             "secondary": {k: sorted(v) for k, v in e.secondary_time_index.items()},
             "variables": [(v.id, type(v).__name__) for v in e.variables],
             "descriptions": {v.id: v.description for v in e.variables},
             "names": {v.id: v.name for v in e.variables},
             "interesting": {v.id: [plain(x) for x in v.interesting_values.values] for v in e.variables},
             "columns": list(df.columns), "dtypes": {c: str(t) for c, t in df.dtypes.items()},
             "has_lti": e.last_time_index is not None}
        if data:
            d["rows"] = {c: [plain(x) for x in df[c]] for c in df.columns}
            if kind == "pandas":
                d["row_index"] = [plain(x) for x in df.index]
        if lti and e.last_time_index is not None:
            s = frame(e.last_time_index)
            d["lti"] = sorted((repr(plain(i)), repr(plain(x))) for i, x in s.items())
        out["entities"][e.id] = d
    for r in es.relationships:
        out["relationships"].append((r.parent_entity.id, r.parent_variable.id, r.child_entity.id, r.child_variable.id))
    return out


def canon(d, es=None):
    """description -> copy in which order of entities and relationships does not count."""
    return dict(d, relationships=sorted(d["relationships"]), entities={k: d["entities"][k] for k in sorted(d["entities"])})


def diff(a, b, path="", ignore=()):
    """First difference between two descriptions, or None."""
    if type(a) != type(b):
        return "%s: %r versus %r" % (path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys %r versus %r" % (path, sorted(a, key=repr), sorted(b, key=repr))
        for k in a:
            if k in ignore:
                continue
            d = diff(a[k], b[k], "%s/%s" % (path, k), ignore)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d items versus %d: %r versus %r" % (path, len(a), len(b), a[:6], b[:6])
        for k, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, k), ignore)
            if d:
                return d
        return None
    return None if a == b else "%s: %r versus %r" % (path, a, b)


def metadata(es):
    """The EntitySet's own metadata property as plain data."""
    m = es.metadata
    return canon(describe(m, data=False, lti=False))
