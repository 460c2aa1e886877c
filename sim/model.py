"""Reference evaluator in plain Python, written from the documented meaning of features: applies a
feature's definition to just the rows visible at a cutoff time. Times are minutes. Null is None."""
import calendar
import datetime as _dt
import math

from sim.workload import AGG, BASE, entity  # noqa: F401

MINUTES = {"s": 1 / 60.0, "m": 1, "h": 60, "d": 1440, "w": 10080}


def to_dt(m):
    return BASE + _dt.timedelta(minutes=m)


def from_dt(d):
    return (d - BASE).total_seconds() / 60.0


def subtract(ds, t, w):
    """t minus a window given as a number (numeric time) or [value, unit] or list of those."""
    if isinstance(w, (int, float)):
        return t - w
    pairs = w if isinstance(w[0], (list, tuple)) else [w]
    months = 0
    mins = 0.0
    for v, u in pairs:
        if u in ("mo", "Y"):
            months += v * (12 if u == "Y" else 1)
        else:
            mins += v * MINUTES[u]
    if months:
        d = to_dt(t)
        tot = d.year * 12 + d.month - 1 - months
        y, mo = divmod(tot, 12)
        day = min(d.day, calendar.monthrange(y, mo + 1)[1])
        t = from_dt(d.replace(year=y, month=mo + 1, day=day))
    return t - mins


class Data:
    """Rows of a whole entityset, sorted as an entityset sorts them, and last time indexes."""

    def __init__(self, ds, rows=None, lti=None):
        self.ds = ds
        self.ents = {}
        self.rows = {}
        for e in ds["entities"]:
            names = [c["n"] for c in e["cols"]]
            tc = [c["n"] for c in e["cols"] if c["t"] == "time"]
            tc = tc[0] if tc else None
            idx = names[0]
            rr = [dict(zip(names, r)) for r in (rows[e["id"]] if rows is not None else e["rows"])]
            if tc:
                rr.sort(key=lambda r: (r[tc], r[idx]))
            self.rows[e["id"]] = rr
            self.ents[e["id"]] = {"time": tc, "index": idx, "sec": e["sec"], "cols": names,
                                  "types": {c["n"]: c["t"] for c in e["cols"]}}
        self.has_lti = ds["lti"] if lti is None else lti
        self.lti = self.compute_lti() if self.has_lti else None

    def compute_lti(self):
        out = {e: {} for e in self.ents}
        order = [e["id"] for e in self.ds["entities"]]
        for e in reversed(order):   # relationships always point from earlier to later entities
            ent = self.ents[e]
            for r in self.rows[e]:
                out[e][r[ent["index"]]] = r[ent["time"]] if ent["time"] else None
            for p, c, fk in self.ds["rels"]:
                if p != e:
                    continue
                cidx = self.ents[c]["index"]
                for r in self.rows[c]:
                    v = out[c][r[cidx]]
                    k = r[fk]
                    if v is not None and k in out[e]:
                        if out[e][k] is None or v > out[e][k]:
                            out[e][k] = v
        return out


class View:
    """What is visible at cutoff t."""

    def __init__(self, data, t, window=None, include=True, precalc=None):
        self.d = data
        self.ds = data.ds
        self.t = t
        self.window = window
        self.include = include
        self.memo = {}
        self.vis = {}
        self.precalc = precalc or {}

    def visible(self, e):
        if e in self.vis:
            return self.vis[e]
        ent = self.d.ents[e]
        rows = self.d.rows[e]
        tc = ent["time"]
        if tc:
            ok = []
            lo = None if self.window is None else subtract(self.ds, self.t, self.window)
            for r in rows:
                v = r[tc]
                if not (v <= self.t if self.include else v < self.t):
                    continue
                if lo is not None:
                    inside = v > lo if self.include else v >= lo
                    if not inside and self.d.lti is not None:
                        q = self.d.lti[e][r[ent["index"]]]
                        inside = q is not None and (q > lo if self.include else q >= lo)
                    if not inside:
                        continue
                ok.append(r)
            rows = ok
        if ent["sec"]:
            out = []
            for r in rows:
                r = dict(r)
                for st, cols in ent["sec"].items():
                    if r[st] is not None and r[st] >= self.t:
                        for c in list(cols) + [st]:
                            r[c] = None
                out.append(r)
            rows = out
        self.vis[e] = rows
        return rows

    # ---------------------------------------------------------------- features
    def ev(self, spec):
        """-> {instance id: value or list of values} over visible rows of the feature's entity."""
        key = repr(spec)
        if key in self.memo:
            return self.memo[key]
        if key in self.precalc:
            return self.precalc[key]
        k = spec["k"]
        out = getattr(self, "ev_" + k)(spec)
        self.memo[key] = out
        return out

    def ids(self, e):
        ix = self.d.ents[e]["index"]
        return [r[ix] for r in self.visible(e)]

    def ev_id(self, s):
        ix = self.d.ents[s["e"]]["index"]
        zero = self.ds.get("zero", 0)
        if zero and any(c["n"] == s["v"] and c["t"] in ("time", "sectime") for e in self.ds["entities"] if e["id"] == s["e"] for c in e["cols"]):
            return {r[ix]: None if r[s["v"]] is None else r[s["v"]] - zero for r in self.visible(s["e"])}
        return {r[ix]: r[s["v"]] for r in self.visible(s["e"])}

    def ev_slice(self, s):
        return {i: v[s["n"]] for i, v in self.ev(s["b"]).items()}

    def ev_dir(self, s):
        p, c, fk = self.ds["rels"][s["rel"]]
        ix = self.d.ents[c]["index"]
        base = self.ev(s["b"])
        dflt = default(s["b"])
        n = width(s["b"])
        out = {}
        for r in self.visible(c):
            v = base.get(r[fk])
            if n > 1:
                v = [None] * n if v is None else v
                v = [dflt if (x is None and dflt is not None) else x for x in v]
            elif v is None:
                v = dflt
            out[r[ix]] = v
        return out

    def ev_tr(self, s):
        ids = self.ids(s["e"])
        args = [self.ev(b) for b in s["b"]]
        vals = transform(s, [[a[i] for i in ids] for a in args], self.t)
        return dict(zip(ids, vals))

    def ev_gb(self, s):
        ids = self.ids(s["e"])
        args = [self.ev(b) for b in s["b"]]
        g = self.ev(s["g"])
        groups = {}
        for i in ids:
            if g[i] is not None:
                groups.setdefault(g[i], []).append(i)
        out = {i: None for i in ids}
        for members in groups.values():
            for i, v in zip(members, transform(s, [[a[i] for i in members] for a in args], self.t)):
                out[i] = v
        return out

    def ev_agg(self, s):
        rels = [self.ds["rels"][i] for i in s["path"]]
        e = s["e"]
        # map each visible row of the last child to its ancestor at the top of the path
        owner = {i: i for i in self.ids(e)}
        for p, c, fk in rels:
            ix = self.d.ents[c]["index"]
            owner = {r[ix]: owner[r[fk]] for r in self.visible(c) if r[fk] in owner}
        child = rels[-1][1]
        ent = self.d.ents[child]
        rows = [r for r in self.visible(child) if r[ent["index"]] in owner]
        if s.get("where"):
            w = self.ev(s["where"])
            rows = [r for r in rows if w[r[ent["index"]]]]
        prev = s.get("prev")
        if prev and prev[1] != "o":
            lo = subtract(self.ds, self.t, prev)
            if ent["time"]:
                rows = [r for r in rows if r[ent["time"]] >= lo]
        groups = {}
        for r in rows:
            groups.setdefault(owner[r[ent["index"]]], []).append(r[ent["index"]])
        args = [self.ev(b) for b in s["b"]]
        out = {}
        d = default(s)
        n = width(s)
        for i in self.ids(e):
            members = groups.get(i, [])
            if prev and prev[1] == "o":
                members = members[-prev[0]:]
            if members:
                v = aggregate(s["p"], [[a[m] for m in members] for a in args], self.t, len(members))
            else:
                v = [None] * n if n > 1 else None
            if n > 1:
                v = [d if x is None else x for x in v]
            elif v is None:
                v = d
            out[i] = v
        return out


DEFAULTS = {"Count": 0, "Sum": 0, "NumTrue": 0, "PercentTrue": 0}


def default(s):
    if s["k"] == "agg":
        return DEFAULTS.get(s["p"])
    if s["k"] in ("dir", "slice"):
        return default(s["b"])
    return None


def width(s):
    if s["k"] in ("agg", "tr") and s["p"] in ("SimMinMax", "SimSplit"):
        return 2
    if s["k"] == "dir":
        return width(s["b"])
    return 1


def nn(v):
    return [x for x in v if x is not None]


def aggregate(p, args, t, n):
    a = args[0]
    v = nn(a)
    if p == "Count":
        return len(v)
    if p == "Sum":
        return math.fsum(v)
    if p == "Mean":
        return math.fsum(v) / len(v) if v else None
    if p == "Max":
        return max(v) if v else None
    if p == "Min":
        return min(v) if v else None
    if p == "Median":
        if not v:
            return None
        w = sorted(v)
        h = len(w) // 2
        return w[h] if len(w) % 2 else (w[h - 1] + w[h]) / 2.0
    if p == "NumUnique":
        return len(set(v))
    if p == "Mode":
        if not v:
            return None
        best = max(v.count(x) for x in v)
        return min(x for x in v if v.count(x) == best)
    if p == "NumTrue":
        return sum(1 for x in v if x)
    if p == "PercentTrue":
        return sum(1 for x in v if x) / float(len(a))
    if p == "All":
        return all(v)
    if p == "Any":
        return any(v)
    if p == "Last":
        return a[-1]
    if p == "First":
        return a[0]
    if p == "TimeSinceLast":
        return (t - a[-1]) * 60.0
    if p == "TimeSinceFirst":
        return (t - a[0]) * 60.0
    if p == "AvgTimeBetween":
        return (max(v) - min(v)) * 60.0 / (len(v) - 1) if len(v) > 1 else None
    if p == "SimMinMax":
        return [min(v), max(v)] if v else [None, None]
    if p == "SimDot":
        return math.fsum((x or 0) * (y or 0) for x, y in zip(*args))
    raise KeyError(p)


def transform(s, args, t):
    p = s["p"]
    a = args[0]
    val = (s.get("args") or {}).get("value")
    n1 = lambda f: [None if x is None else f(x) for x in a]
    n2 = lambda f: [None if (x is None or y is None) else f(x, y) for x, y in zip(*args)]
    if p == "Absolute":
        return n1(abs)
    if p == "Negate":
        return n1(lambda x: -x)
    if p == "AddNumericScalar":
        return n1(lambda x: x + val)
    if p == "AddNumeric":
        return n2(lambda x, y: x + y)
    if p == "SubtractNumeric":
        return n2(lambda x, y: x - y)
    if p == "MultiplyNumeric":
        return n2(lambda x, y: x * y)
    if p == "GreaterThanScalar":
        return [x is not None and x > val for x in a]
    if p == "LessThanEqualToScalar":
        return [x is not None and x <= val for x in a]
    if p == "EqualScalar":
        return [x is not None and x == val for x in a]
    if p == "IsNull":
        return [x is None for x in a]
    if p == "Not":
        return [not x for x in a]
    if p == "And":
        return [bool(x and y) for x, y in zip(*args)]
    if p == "Or":
        return [bool(x or y) for x, y in zip(*args)]
    if p == "Hour":
        return n1(lambda x: to_dt(x).hour)
    if p == "Day":
        return n1(lambda x: to_dt(x).day)
    if p == "Month":
        return n1(lambda x: to_dt(x).month)
    if p == "TimeSince":
        return n1(lambda x: (t - x) * 60.0)
    if p == "Diff":
        return [None if k == 0 or a[k] is None or a[k - 1] is None else a[k] - a[k - 1] for k in range(len(a))]
    if p == "TimeSincePrevious":
        return [None if k == 0 or a[k] is None or a[k - 1] is None else (a[k] - a[k - 1]) * 60.0 for k in range(len(a))]
    if p in ("CumSum", "CumMean", "CumMin", "CumMax"):
        out, acc = [], None
        for k, x in enumerate(a):
            if x is None:
                out.append(None)
                continue
            if acc is None:
                acc = x
            elif p in ("CumSum", "CumMean"):
                acc += x
            elif p == "CumMin":
                acc = min(acc, x)
            else:
                acc = max(acc, x)
            out.append(acc / float(k + 1) if p == "CumMean" else acc)
        return out
    if p == "CumCount":
        return list(range(1, len(a) + 1))
    if p == "Percentile":
        v = nn(a)
        return n1(lambda x: (sum(1 for y in v if y < x) + (sum(1 for y in v if y == x) + 1) / 2.0) / len(v))
    if p == "SimSplit":
        return [[None, None] if x is None else [math.floor(x), x - math.floor(x)] for x in a]
    raise KeyError(p)


def uses_full(s):
    """The feature, or something it depends on, needs all rows of its entity."""
    if s["k"] == "id":
        return False
    if s["k"] in ("tr", "gb") and s["p"] in ("Diff", "CumSum", "CumCount", "CumMean", "CumMin", "CumMax", "Percentile", "TimeSincePrevious"):
        return True
    deps = s["b"] if isinstance(s["b"], list) else [s["b"]]
    return any(uses_full(d) for d in deps)


def subspecs(s):
    yield s
    if s["k"] == "id":
        return
    for b in (s["b"] if isinstance(s["b"], list) else [s["b"]]):
        yield from subspecs(b)
    if s.get("where"):
        yield from subspecs(s["where"])
    if s.get("g"):
        yield from subspecs(s["g"])


def matrix(data, specs, rows, window=None, include=True, view_for=None):
    """rows: [(instance id, t)] -> list of flat value lists, in the order of rows."""
    views = {}
    out = []
    for i, t in rows:
        if t not in views:
            views[t] = view_for(t) if view_for else View(data, t, window, include)
        v = views[t]
        line = []
        for s in specs:
            vals = v.ev(s)
            n = width(s)
            if i in vals:
                x = vals[i]
                line += list(x) if n > 1 else [x]
            else:
                line += [default(s)] * n
        out.append(line)
    return out


# ------------------------------------------------------------------ comparison
def cell(v):
    """runtime value -> None | float | str."""
    import numpy as np
    import pandas as pd
    if v is None or v is pd.NaT:
        return None
    if isinstance(v, (pd.Timestamp, _dt.datetime, np.datetime64)):
        v = pd.Timestamp(v)
        if v is pd.NaT:
            return None
        return ((v - pd.Timestamp(BASE)) / pd.Timedelta(minutes=1))
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        v = float(v)
        return None if math.isnan(v) else v
    if isinstance(v, str):
        return v
    return repr(v)


def close(a, b):
    a, b = cell(a), cell(b)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def diff_matrix(df, names, expect, limit=3):
    """Compare the columns `names` of a pandas frame, by position, with expected rows. None = equal."""
    if len(df) != len(expect):
        return "got %d rows, expected %d" % (len(df), len(expect))
    cols = [list(df[n]) for n in names]
    bad = []
    for k, row in enumerate(expect):
        for j, n in enumerate(names):
            if not close(cols[j][k], row[j]):
                bad.append("row %d (%s) column %s: got %r, expected %r" % (k, df.index[k], n, cols[j][k], row[j]))
                if len(bad) >= limit:
                    return "; ".join(bad)
    return "; ".join(bad) or None


def frames_differ(a, b, exact_cols=True, exact_dtypes=False):
    """Compare two pandas frames cell by cell (order included). None = equal."""
    if list(a.columns) != list(b.columns):
        return "columns %r versus %r" % (list(a.columns)[:8], list(b.columns)[:8])
    if len(a) != len(b):
        return "%d rows versus %d" % (len(a), len(b))
    if a.index.names != b.index.names:
        return "index names %r versus %r" % (a.index.names, b.index.names)
    ia, ib = list(a.index), list(b.index)
    if ia != ib:
        k = next((k for k in range(len(ia)) if ia[k] != ib[k]), None)
        if k is not None and not (isinstance(ia[k], tuple) and all(close(x, y) for x, y in zip(ia[k], ib[k]))):
            return "index position %s: %r versus %r" % (k, ia[k], ib[k])
    for n in range(len(a.columns)):
        x, y = list(a.iloc[:, n]), list(b.iloc[:, n])
        for k in range(len(x)):
            if not close(x[k], y[k]):
                return "row %s column %s: %r versus %r" % (ia[k], a.columns[n], x[k], y[k])
        if exact_dtypes and a.dtypes.iloc[n] != b.dtypes.iloc[n]:
            return "column %s dtype %s versus %s" % (a.columns[n], a.dtypes.iloc[n], b.dtypes.iloc[n])
    return None


def feature_columns(features):
    out = []
    for f in features:
        out += f.get_feature_names()
    return out


class ApproxView:
    """Features of the target entity at cutoff t when some aggregations are approximated.

    approx: {(path of relationship indexes from the target, repr of the aggregation)}; bucket(t) -> start of t's bucket.
    The value of an approximated aggregation at the end of its path is the one it has at bucket(t)."""

    def __init__(self, data, t, window, include, approx, bucket):
        self.exact = View(data, t, window, include)
        self.start = View(data, bucket(t), window, include)
        self.approx = approx
        self.memo = {}
        self.used = set()

    def ev(self, s, path=()):
        key = (path, repr(s))
        if key in self.memo:
            return self.memo[key]
        if key in self.approx:
            self.used.add(key)
            vals = self.start.ev(s)
            n, d = width(s), default(s)
            out = {}
            for i in self.exact.ids(s["e"]):
                out[i] = vals[i] if i in vals else ([d] * n if n > 1 else d)
        elif s["k"] in ("id", "agg"):
            out = self.exact.ev(s)
        else:
            # evaluated over values that may be approximated
            sub = View(self.exact.d, self.exact.t, self.exact.window, self.exact.include)
            sub.vis = self.exact.vis
            p = path + (s["rel"],) if s["k"] == "dir" else path
            for b in deps_of(s):
                sub.precalc[repr(b)] = self.ev(b, p)
            out = getattr(sub, "ev_" + s["k"])(s)
        self.memo[key] = out
        return out


def deps_of(s):
    out = list(s["b"]) if isinstance(s["b"], list) else [s["b"]]
    return out + [s[k] for k in ("where", "g") if s.get(k)]
