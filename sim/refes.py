"""Reference model of an EntitySet under edits: plain Python rows, no pandas. Used by P17 and P18.

Times are minutes (or plain numbers), null is None. A column is [name, kind, type]: kind says what the
cells are and which dtype they have, type is the name of the featuretools variable type."""
import copy

from sim import workload as W

DTYPE = {"sid": "object", "iid": "int64", "t": "datetime64[ns]", "nt": "int64", "cat": "object", "num": "float64", "int": "int64", "code": "object",
         "bool": "bool", "note": "object", "date": "object"}
TYPE = {"sid": "Id", "iid": "Id", "t": "Datetime", "nt": "Numeric", "cat": "Categorical", "num": "Numeric", "int": "Numeric", "code": "ZIPCode",
        "bool": "Boolean", "note": "NaturalLanguage", "date": "Categorical"}
DISCRETE = {"Categorical", "Id", "Ordinal", "ZIPCode", "CountryCode", "SubRegionCode"}


class Skip(Exception):
    """the operation does not apply to this state"""


class Refused(Exception):
    """the edit must be refused"""


def clock(m):
    """minutes -> what escmp.plain gives for the timestamp."""
    import calendar
    return None if m is None else ("time", (calendar.timegm(W.BASE.timetuple()) + m * 60) * 10 ** 9)


def plain(kind, v):
    if v is None:
        return None
    if kind == "t":
        return clock(v)
    if kind == "bool":
        return ("bool", v)
    if isinstance(v, (int, float)):
        return ("num", int(v) if float(v).is_integer() else float(v))
    return v


class Ent:
    def __init__(self, id, index, time, sec, cols, rows, created=False):
        self.id, self.index, self.time, self.sec, self.cols, self.rows, self.created = id, index, time, sec, cols, rows, created
        self.lti = None
        self.desc, self.names, self.iv = {}, {}, {}

    def col(self, n):
        for c in self.cols:
            if c[0] == n:
                return c
        raise Skip(n)

    def has(self, n):
        return any(c[0] == n for c in self.cols)

    def forget(self, n):
        """what changing a variable's type loses"""
        self.desc.pop(n, None)
        self.iv.pop(n, None)

    def sort(self):
        if self.time:
            t, i = self.time, self.index
            self.rows.sort(key=lambda r: (r[t] is None, r[t] if r[t] is not None else 0, r[i]))


class Model:
    def __init__(self, id="es", numeric=False):
        self.id, self.numeric = id, numeric
        self.ents = {}
        self.rels = []          # (parent, parent variable, child, child variable)
        self.time_type = None

    def copy(self):
        return copy.deepcopy(self)

    def ent(self, id):
        if id not in self.ents:
            raise Skip(id)
        return self.ents[id]

    # ---- structure
    def parents(self, e):
        return [r[0] for r in self.rels if r[2] == e]

    def children(self, e):
        return [(r[2], r[3]) for r in self.rels if r[0] == e]

    def ancestors(self, e):
        out, todo = set(), [e]
        while todo:
            for p in self.parents(todo.pop()):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def linked(self, e, n):
        return any((r[0], r[1]) == (e, n) or (r[2], r[3]) == (e, n) for r in self.rels)

    # ---- edits
    def add_entity(self, id, index, time, sec, cols, rows, make_index=False):
        if id in self.ents:
            raise Skip(id)
        cols = [list(c) for c in cols]
        rows = [dict(r) for r in rows]
        if make_index:
            cols.insert(0, [index, "iid", "Index"])
            for k, r in enumerate(rows):
                r[index] = k
        e = Ent(id, index, time, {k: sorted(set(v) | {k}) for k, v in (sec or {}).items()}, cols, rows, bool(make_index))
        if time == index:
            raise Refused()
        if len(set(r[index] for r in rows)) < len(rows):
            raise Refused()
        for n in [time] + list(e.sec):
            if n is not None:
                k = e.col(n)[1]
                if any(r[n] is None for r in rows):
                    raise Skip("null time")
                if DTYPE[k] == "object" and k != "note":
                    raise Skip("may be parsed")
                if k not in ("t", "nt", "int", "num"):
                    raise Refused()
                if (k != "t") != self.numeric and self.time_type is None and not (len(e.sec) and time):
                    raise Skip("the other kind of time")
                tt = "DatetimeTimeIndex" if k == "t" else "NumericTimeIndex"
                if self.time_type not in (None, tt):
                    raise Refused()
                first = [q for q in [time] + list(e.sec) if q is not None][0]
                fk = e.col(first)[1]
                if (fk == "t") != (k == "t"):
                    raise Refused()
        e.col(index)[2] = "Index"
        if time:
            e.col(time)[2] = "DatetimeTimeIndex" if e.col(time)[1] == "t" else "NumericTimeIndex"
        for n in [time] + list(e.sec):
            if n is not None and self.time_type is None:
                self.time_type = "DatetimeTimeIndex" if e.col(n)[1] == "t" else "NumericTimeIndex"
        e.sort()
        e.cols = [e.col(index)] + [c for c in e.cols if c[0] != index]
        self.ents[id] = e

    def add_relationship(self, p, pv, c, cv):
        pe, ce = self.ent(p), self.ent(c)
        pc, cc = pe.col(pv), ce.col(cv)
        if (p, pv, c, cv) in self.rels:
            return
        if p == c or p == c or c in self.ancestors(p):
            raise Skip("cycle")
        if pv != pe.index or cv == ce.index or DTYPE[pc[1]] != DTYPE[cc[1]]:
            raise Refused()
        if cv == ce.time or cv in ce.sec or self.linked(c, cv):
            raise Skip("time as key")
        if cc[2] != "Id":
            cc[2] = "Id"
            ce.forget(cv)
        self.rels.append((p, pv, c, cv))

    def normalize(self, base, new, index, additional, copies, make_time, new_time, sec, new_sec):
        if new in self.ents:
            raise Skip(new)
        b = self.ent(base)
        for n in [index] + additional + copies + ([sec["t"]] + sec["cols"] if sec else []):
            if not b.has(n):
                raise Skip(n)
        if len(set(additional)) < len(additional) or len(set(copies)) < len(copies) or index in additional + copies or b.time in additional or index == b.index:
            raise Refused()
        if isinstance(make_time, str) and make_time not in additional + copies:
            raise Refused()
        if make_time is True and b.time is None:
            raise Refused()
        if any(self.linked(base, n) or n == b.index for n in additional + copies + [index]) or b.index in (sec or {"cols": []})["cols"]:
            raise Skip("a key moves")
        if any(n in b.sec or any(n in v for v in b.sec.values()) for n in additional + [index]) or index == b.time:
            raise Skip("secondary time moves")
        if set(additional) & set(copies) or b.time in copies and make_time in (True, None):
            raise Skip("listed twice")
        if any(r[index] is None for r in b.rows) or DTYPE[b.col(index)[1]] not in ("object", "int64"):
            raise Skip("no key")
        if make_time is None and b.time is not None:
            make_time = True
        time = src = None
        if isinstance(make_time, str):
            if b.col(make_time)[1] not in ("t", "nt") or (b.col(make_time)[1] == "nt") != self.numeric:
                raise Skip("not a time")
            time = src = make_time
        elif make_time:
            src = b.time
            time = new_time or "first_%s_time" % base
        if time is not None and (time == index or time in additional + copies and time != src):
            raise Skip("name taken")
        keep = [n for n in additional + copies]
        cols = [[index, b.col(index)[1], "Index"]]
        first, last = {}, {}
        for r in b.rows:
            first.setdefault(r[index], r)
            last[r[index]] = r
        seccols = []
        if sec:
            names = [sec["t"]] + sec["cols"]
            if len(set(names)) < len(names) or index in names:
                raise Skip("sec")
            st = new_sec or sec["t"]
            clash = set(n if n != sec["t"] else st for n in names) & set(keep + ([time] if time else []) + [index])
            if clash or b.col(sec["t"])[1] not in ("t", "nt") or (b.col(sec["t"])[1] == "nt") != self.numeric:
                raise Skip("sec")
            for n in names:
                k = b.col(n)[1]
                if k not in ("t", "nt", "num", "int"):
                    raise Skip("inferred type")
                seccols.append((st if n == sec["t"] else n, n, k))
        for to, n, k in seccols:
            cols.append([to, k, "Datetime" if k == "t" else "Numeric"])
        for n in keep:
            if n == src and isinstance(make_time, str):
                cols.append([n, b.col(n)[1], None])
                continue
            vt = b.col(n)[2]
            cols.append([n, b.col(n)[1], {"DatetimeTimeIndex": "Datetime", "NumericTimeIndex": "Numeric"}.get(vt, vt)])
        if time is not None and not isinstance(make_time, str):
            cols.append([time, b.col(src)[1], None])
        rows = []
        for k, r in first.items():
            q = {index: k}
            for n in keep:
                q[n] = r[n]
            if time is not None:
                q[time] = r[src]
            for to, n, _ in seccols:
                q[to] = last[k][n]
            rows.append(q)
        e = Ent(new, index, time, {seccols[0][0]: sorted(c[0] for c in seccols)} if sec else {}, cols, rows)
        if time is not None:
            e.col(time)[2] = "NumericTimeIndex" if self.numeric else "DatetimeTimeIndex"
            if isinstance(make_time, str) and make_time != b.time:
                e.sort()
        if (time is not None or sec) and self.time_type is None:
            self.time_type = "NumericTimeIndex" if self.numeric else "DatetimeTimeIndex"
        self.ents[new] = e
        self._delete(b, additional)
        if b.col(index)[2] != "Id":
            b.col(index)[2] = "Id"
            b.forget(index)
        self.rels.append((new, index, base, index))

    def update(self, id, rows):
        e = self.ent(id)
        if any(set(r) != set(c[0] for c in e.cols) for r in rows) or not rows:
            raise Skip("columns")
        if len(set(r[e.index] for r in rows)) < len(rows):
            raise Refused()
        e.rows = [dict(r) for r in rows]
        e.sort()
        if e.lti is not None:
            self.add_lti([id])

    def concat(self, other):
        """other: {entity: rows}"""
        had = []
        for id, e in self.ents.items():
            seen = set(r[e.index] for r in e.rows)
            e.rows += [dict(r) for r in other[id].rows if r[e.index] not in seen]
            if e.time:
                e.sort()
            else:
                e.rows.sort(key=lambda r: r[e.index])
            if e.lti is not None or other[id].lti is not None:
                had.append(id)
        if had:
            self.add_lti(had)

    def add_lti(self, updated=None):
        if updated:
            todo = set(updated)
            for u in updated:
                todo |= self.ancestors(u)
        else:
            todo = set(self.ents)
        for e in todo:
            self.ents[e].lti = None
        done = set()

        def explore(id):
            if id in done:
                return
            done.add(id)
            e = self.ents[id]
            if e.lti is None:
                e.lti = {r[e.index]: (r[e.time] if e.time else None) for r in e.rows}
            for c, v in self.children(id):
                explore(c)
                ce = self.ents[c]
                for r in ce.rows:
                    t = ce.lti.get(r[ce.index])
                    if t is not None and r[v] in e.lti and (e.lti[r[v]] is None or t > e.lti[r[v]]):
                        e.lti[r[v]] = t
        for e in sorted(todo):
            explore(e)

    def _delete(self, e, names):
        e.cols = [c for c in e.cols if c[0] not in names]
        for r in e.rows:
            for n in names:
                r.pop(n, None)
        for n in names:
            e.forget(n)
            e.names.pop(n, None)

    def delete(self, id, names):
        e = self.ent(id)
        if any(not e.has(n) for n in names):
            raise Refused()
        if any(n in (e.index, e.time) or self.linked(id, n) or n in e.sec or any(n in v for v in e.sec.values()) for n in names):
            raise Skip("key")
        self._delete(e, names)

    def convert(self, id, n, to, data=True):
        e = self.ent(id)
        if not e.has(n):
            raise Refused()
        c = e.col(n)
        if n in (e.index, e.time) or n in e.sec or self.linked(id, n) or to == c[2]:
            raise Skip("key")
        k = c[1]
        if data:
            if to == "Numeric":
                if DTYPE[k] == "object":
                    out = []
                    for r in e.rows:
                        try:
                            out.append(None if r[n] is None else float(r[n]))
                        except ValueError:
                            out.append(None)
                    if all(v is None for v in out) and any(r[n] is not None for r in e.rows):
                        raise Refused()
                    for r, v in zip(e.rows, out):
                        r[n] = v
                    whole = k == "code" and all(v is not None for v in out)
                    if whole:
                        for r in e.rows:
                            r[n] = int(r[n])
                    c[1] = "int" if whole else "num"
                elif k not in ("num", "int"):
                    raise Skip("numeric")
            elif to == "Datetime":
                if k != "date":
                    if k in ("cat", "note") and any(r[n] is not None for r in e.rows):
                        raise Refused()
                    raise Skip("datetime")
                for r in e.rows:
                    if r[n] is not None:
                        r[n] = int(r[n][4:]) if r[n].startswith("min:") else r[n]
                import datetime
                for r in e.rows:
                    if isinstance(r[n], str):
                        d = datetime.datetime.strptime(r[n], "%Y-%m-%d") - W.BASE
                        r[n] = int(d.total_seconds() // 60)
                c[1] = "t"
            elif to not in DISCRETE:
                raise Refused()
        elif to == "Numeric" and k not in ("int", "num", "iid", "nt") or to == "Datetime" and k != "t":
            raise Skip("type without the data")
        c[2] = to
        e.forget(n)

    def set_time(self, id, n):
        e = self.ent(id)
        if not e.has(n):
            raise Refused()
        k = e.col(n)[1]
        if e.time is not None or n == e.index or self.linked(id, n):
            raise Skip("has one")
        if any(r[n] is None for r in e.rows) or k == "bool" or DTYPE[k] == "object" and k != "note":
            raise Skip("null time")
        if k == "note":
            raise Refused()
        tt = "DatetimeTimeIndex" if k == "t" else "NumericTimeIndex"
        if self.time_type not in (None, tt):
            raise Refused()
        if (k != "t") != self.numeric:
            raise Skip("the other kind of time")
        if any(r[n] is None for r in e.rows):
            raise Skip("null time")
        self.time_type = tt
        if e.col(n)[2] != tt:
            e.col(n)[2] = tt
            e.forget(n)
        e.time = n
        e.sort()

    def mark(self, id, n, values):
        e = self.ent(id)
        c = e.col(n)
        if DTYPE[c[1]] == "object" and not all(isinstance(v, str) for v in values) or DTYPE[c[1]] == "int64" and not all(type(v) is int for v in values) or \
                c[1] == "num" and not all(type(v) in (int, float) for v in values) or c[1] in ("t", "bool", "nt"):
            raise Skip("values")
        out = []
        for v in values:
            if c[2] not in DISCRETE or v not in out:
                out.append(v)
        e.iv[n] = out

    # ---- as plain data, in the form of escmp.describe
    def describe(self):
        out = {"id": self.id, "entities": {}, "relationships": [tuple(r) for r in self.rels], "time_type": self.time_type}
        for id, e in self.ents.items():
            names = {c[0]: e.names.get(c[0], c[0]) for c in e.cols}
            d = {"kind": "pandas", "index": e.index, "time_index": e.time, "secondary": {k: sorted(v) for k, v in e.sec.items()},
                 "variables": [(c[0], c[2]) for c in e.cols],
                 "descriptions": {n: e.desc.get(n, 'the "%s"' % names[n]) for n in names}, "names": names,
                 "interesting": {c[0]: [plain(c[1], v) for v in e.iv.get(c[0], [])] for c in e.cols},
                 "columns": [c[0] for c in e.cols], "dtypes": {c[0]: DTYPE[c[1]] for c in e.cols}, "has_lti": e.lti is not None,
                 "rows": {c[0]: [plain(c[1], r[c[0]]) for r in e.rows] for c in e.cols},
                 "row_index": [plain(e.col(e.index)[1], r[e.index]) for r in e.rows]}
            if e.lti is not None:
                k = e.col(e.index)[1]
                d["lti"] = sorted((repr(plain(k, i)), repr(clock(v))) for i, v in e.lti.items())
            out["entities"][id] = d
        return out


# ---------------------------------------------------------------- real objects
def series(kind, vals):
    import numpy as np
    import pandas as pd
    if kind == "t":
        return pd.Series([pd.NaT if v is None else pd.Timestamp(W.BASE) + pd.Timedelta(minutes=v) for v in vals], dtype="datetime64[ns]")
    if DTYPE[kind] == "object":
        return pd.Series([np.nan if v is None else v for v in vals], dtype="object")
    if kind == "num":
        return pd.Series([np.nan if v is None else float(v) for v in vals], dtype="float64")
    return pd.Series(vals, dtype=DTYPE[kind])


def frame(cols, rows):
    import pandas as pd
    return pd.DataFrame({c[0]: series(c[1], [r[c[0]] for r in rows]) for c in cols}, columns=[c[0] for c in cols])


def types(cols, skip=()):
    from featuretools import variable_types as vt
    return {c[0]: getattr(vt, c[2] or TYPE[c[1]]) for c in cols if c[0] not in skip}


def fresh(m, lti=False):
    """An EntitySet with the model's contents, built at once."""
    import featuretools as ft
    es = ft.EntitySet(m.id)
    for e in m.ents.values():
        es.entity_from_dataframe(e.id, frame(e.cols, e.rows), index=e.index, time_index=e.time, variable_types=types(e.cols, (e.index,)),
                                 secondary_time_index={k: list(v) for k, v in e.sec.items()} or None, already_sorted=True)
        for v in es[e.id].variables:
            if v.id in e.names:
                v.name = e.names[v.id]
            if v.id in e.desc:
                v.description = e.desc[v.id]
            if v.id in e.iv:
                v.interesting_values = e.iv[v.id]
    for p, pv, c, cv in m.rels:
        es.add_relationship(ft.Relationship(es[p][pv], es[c][cv]))
    if lti:
        es.add_last_time_indexes()
    return es
