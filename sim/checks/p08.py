"""P08: a stored EntitySet reads back whole or not at all."""
import copy
import os
import shutil

from sim import calls, escmp, storage, util
from sim import workload as W
from sim.util import Violation

PROP = "P08"
LEVEL = "fault_enumeration"
TECHNIQUE = "simulated disk (crash, torn and short writes, full disk, read and write errors at seeded operations); each read compared with the EntitySets written"
NOTE = ("EntitySets with many kinds of columns are written, overwritten and read back in fresh processes while the simulated disk crashes or fails; "
        "what is read must be entirely the old or the new EntitySet, or an error. A crash is the death of the process: completed writes survive it.")
RUNS = {"quick": 160, "thorough": 30000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated EntitySet written, read back, and overwritten by another one with two or three injected crashes or disk errors, each "
        "followed by a read, a failed read and a rewrite; distinct_nontrivial counts distinct (format, fault, operation, ordinal, outcome of the read) "
        "signatures")
MEASURE = "distinct (format, fault kind, disk operation, ordinal, outcome of the later read)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "pyarrow", "dask dataframes", "kernel file system below a scratch directory"]
STUB = ["system calls below the scratch directory: build/libftsim.so decides each one", "wall clock"]
ASSUMPTIONS = ["writes completed before a process crash survive it (no power loss)",
               "parquet keeps time spans to the microsecond and reads object columns of booleans with missing values as numbers (limits of the engine)",
               "in CSV the empty string and a missing value are the same (format limit)"]
PROBES = ["csv", "pickle", "parquet", "dask", "pandas_over_dask", "dask_over_pandas", "overwrite", "other_format_before", "crash", "crash_mid_write", "enospc", "eio", "short", "eio_read",
          "short_read", "read_failed", "read_old", "read_new", "rewritten", "interesting_values", "extra_columns", "compressed", "separator",
          "fewer_entities", "tar", "fewer_partitions", "secondary", "numeric_time", "added_after_activity"]
SHRINK = ["trials", "extras", "marks", "case.ds.entities.*.rows"]


def gen(rng, i):
    dask = rng.random() < 0.15
    ds = W.gen_dataset(rng, sizes=(3, 14) if dask else (2, 8), **({"numeric": False, "sec": False} if dask else {}))
    extras = [] if dask else storage.gen_extras(rng, ds)
    fmts = ["csv", "parquet"] if dask else ["csv", "csv", "pickle", "parquet"]
    fmt = rng.choice(fmts)
    parts = {e["id"]: rng.choice([1, 2, 3, 4, 11]) for e in ds["entities"]} if dask else None
    plan = {"case": {"ds": ds}, "dask": dask, "extras": extras, "marks": storage.gen_marks(rng, ds, extras), "fmt": fmt,
            "fmt0": fmt if rng.random() < 0.7 else rng.choice(fmts), "parts": parts,
            "parts2": {k: max(1, v - rng.randint(0, 3)) if v < 11 else rng.choice([2, 11]) for k, v in parts.items()} if dask else None,
            "opts": {}, "drop": ds["entities"][-1]["id"] if rng.random() < 0.3 else None, "new_id": rng.random() < 0.3,
            "rel": rng.random() < 0.2, "plain": rng.choice([None, None, 1, 2]) if dask else None, "tar": rng.random() < 0.15, "shuffle": rng.randrange(1 << 30)}
    if fmt == "csv":
        plan["opts"]["sep"] = rng.choice([",", ",", ",", ";", "\t", "|"])
        plan["opts"]["engine"] = rng.choice(["c", "c", "python"])
        if not dask:
            plan["opts"]["compression"] = rng.choice([None, None, None, "gzip", "bz2"])
    elif fmt == "parquet" and not dask:
        plan["opts"]["compression"] = rng.choice([None, "snappy", "gzip"])
    if rng.random() < 0.3:
        ds["lone"] = {"id": "lone", "cols": [{"n": "lone_id", "t": "index"}, {"n": "at", "t": "time"}, {"n": "x", "t": "num"}], "time": True, "sec": None,
                      "rows": [[W.idval(ds, k), k * ds["step"], k / 2.0] for k in range(1, rng.randint(2, 5))]}
    trials = []
    for _ in range(rng.choice([2, 2, 3])):
        trials.append({"kind": rng.choice(["crash", "crash", "crash", "enospc", "eio", "short"]), "pos": rng.random(), "frac": rng.choice([0, 0.3, 0.9]),
                       "sticky": rng.random() < 0.4, "first": rng.random() < 0.25,
                       "read": rng.choice([None, {"kind": "eio_read", "pos": rng.random()}, {"kind": "short_read", "pos": rng.random()}])})
    plan["trials"] = trials
    return plan


def second(plan):
    """The EntitySet that overwrites the first: other rows, perhaps an entity less."""
    import random
    r = random.Random(plan["shuffle"])
    ds = copy.deepcopy(plan["case"]["ds"])
    for e in ds["entities"]:
        k = [j for j, c in enumerate(e["cols"]) if c["t"] == "num"]
        for row in e["rows"]:
            for j in k:
                row[j] = None if row[j] is None else row[j] + 100
        if len(e["rows"]) > 2 and r.random() < 0.5:
            e["rows"].pop(r.randrange(len(e["rows"])))
    return ds


def run(plan, ctx):
    import warnings

    import dask
    import featuretools as ft
    from sim import seams
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    dask.config.set(scheduler="synchronous")
    Clock.start(1600000000)
    root = ctx.scratch()
    ds1, ds2 = plan["case"]["ds"], second(plan)
    if not all(e["rows"] for e in ds1["entities"] + ds2["entities"]):
        raise util.Invalid("an entity without rows")
    drop = plan["drop"] if len(ds1["entities"]) > 2 else None
    es1 = storage.build(ds1, plan["extras"], plan["marks"], plan["parts"] if plan.get("plain") != 1 else None)
    es2 = storage.build(ds2, [x for x in plan["extras"]], plan["marks"][::2], plan["parts2"] if plan.get("plain") != 2 else None,
                        es_id="other" if plan["new_id"] else None, drop=drop)
    want = {1: full(es1), 2: full(es2)}
    os.mkdir(os.path.join(root, "tmp"))
    os.environ["TMPDIR"] = os.path.join(root, "tmp")
    import tempfile
    tempfile.tempdir = None
    cwd = os.getcwd()
    os.chdir(root)

    def write(es, path, fmt, opts=None):
        getattr(es, "to_" + fmt)(path if not plan["rel"] else os.path.relpath(path), **dict(plan["opts"] if opts is None else opts))

    def read(path):
        return full(ft.read_entityset(path if not plan["rel"] else os.path.relpath(path)))

    def compare(got, which, what, fmt):
        d = same(want[which], got, fmt)
        return d

    def proc(fn, fault=None, path=None):
        """fn in its own process on the simulated disk -> dict"""
        def body():
            disk = seams.Disk(path, faults=[fault] if fault else [])
            disk.on_crash = lambda: util.crash_note({"fired": disk.fired})
            val = err = None
            with disk:
                try:
                    val = fn()
                except BaseException as ex:
                    err = util.exc_info(ex)
            return {"val": val, "err": err, "fired": disk.fired, "n": disk.n, "nr": disk.nr, "broken": disk.error,
                    "left": sorted(f for f in os.listdir(os.path.join(root, "tmp")) if not f.endswith(".partd")), "log": [(a, c) for a, b, c in disk.log]}
        kind, v = util.in_process(body)
        if kind == "crash":
            return {"crash": True, "fired": v["fired"], "err": None, "val": None}
        if kind != "ok":
            raise RuntimeError("harness: %s %r" % (kind, v))
        if v["broken"]:
            raise RuntimeError("harness: " + v["broken"])
        return v

    fmt0, fmt = plan["fmt0"], plan["fmt"]
    opts0 = plan["opts"] if fmt0 == fmt else {}
    before = [escmp.describe(es1), escmp.describe(es2)]

    # --- undisturbed: write, read, overwrite, read
    p = os.path.join(root, "store")
    w1 = proc(lambda: write(es1, p, fmt0, opts0), path=p)
    if w1["err"]:
        raise Violation("write-raises", "writing as %s fails: %s" % (fmt0, tail(w1["err"])))
    Clock.advance(86400 * 40)
    t0 = seams.tree(p)
    r1 = proc(lambda: read(p), path=p)
    check_read(r1, 1, "first write as %s" % fmt0, fmt0, compare)
    if seams.tree(p) != t0:
        raise Violation("read-modifies-store", "reading changed the stored files")
    r1b = proc(lambda: read(p), path=p)
    check_read(r1b, 1, "second read of %s" % fmt0, fmt0, compare)
    saved = os.path.join(root, "saved")
    shutil.copytree(p, saved)
    w2 = proc(lambda: write(es2, p, fmt), path=p)
    if w2["err"]:
        raise Violation("write-raises", "overwriting %s with %s fails: %s" % (fmt0, fmt, tail(w2["err"])))
    r2 = proc(lambda: read(p), path=p)
    check_read(r2, 2, "overwriting %s with %s" % (fmt0, fmt), fmt, compare)
    for b, e in zip(before, (es1, es2)):
        d = escmp.diff(b, escmp.describe(e))
        if d:
            raise Violation("write-changes-entityset", d)
    probes = {fmt: True, "dask": plan["dask"], "overwrite": True, "other_format_before": fmt != fmt0, "interesting_values": bool(plan["marks"]),
              "extra_columns": bool(plan["extras"]), "compressed": bool(plan["opts"].get("compression")), "separator": plan["opts"].get("sep", ",") != ",",
              "fewer_entities": drop is not None, "fewer_partitions": plan["parts"] is not None and plan["parts"] != plan["parts2"],
              "secondary": any(e["sec"] for e in ds1["entities"]), "numeric_time": ds1["numeric_time"], "pandas_over_dask": plan.get("plain") == 2, "dask_over_pandas": plan.get("plain") == 1, "added_after_activity": bool(ds1.get("lone")) and ds1["lti"]}
    # --- with faults
    for k, t in enumerate(plan["trials"]):
        q = os.path.join(root, "t%d" % k)
        if not t["first"]:
            shutil.copytree(saved, q)
        n = max(1, w2["n"])
        fault = {"at": 1 + int(t["pos"] * n), "kind": t["kind"], "frac": t["frac"], "sticky": t["sticky"]}
        r = proc(lambda: write(es2, q, fmt), fault, q)
        fired = [(f["kind"], f["op"], f["n"]) for f in r["fired"]]
        for f in r["fired"]:
            ctx.hit("fault." + f["kind"])
            probes[f["kind"]] = True
            if f["kind"] == "crash" and f["op"] == "write" and t["frac"]:
                probes["crash_mid_write"] = True
        what = "%s %s with %s after %s" % ("first write of" if t["first"] else "overwrite of %s by" % fmt0, fmt, t["kind"], fired)
        returned = not r.get("crash") and r["err"] is None
        if r["err"] is not None and not r["fired"]:
            raise Violation("write-raises", "%s: %s" % (what, tail(r["err"])))
        outcome = judge(proc(lambda: read(q), path=q) if os.path.exists(q) else {"err": ("missing",), "val": None, "left": []}, what,
                        {2} if returned else ({2} if t["first"] else {1, 2}), fmt0, fmt, compare, must=returned)
        if t["read"] and outcome != "failed":
            rf = {"kind": t["read"]["kind"], "at_read": 1 + int(t["read"]["pos"] * max(1, (r2 if outcome == "new" else r1)["nr"]))}
            tr = seams.tree(q)
            rr = proc(lambda: read(q), rf, q)
            for f in rr["fired"]:
                ctx.hit("fault." + f["kind"])
                probes[f["kind"]] = True
            judge(rr, what + " then reading with " + t["read"]["kind"], {2} if outcome == "new" else {1}, fmt0, fmt, compare, must=not rr["fired"])
            if rr["left"]:
                raise Violation("temporary-files-left", "a failed read left %r behind" % rr["left"])
            if seams.tree(q) != tr:
                raise Violation("read-modifies-store", "a failed read changed the stored files")
            judge(proc(lambda: read(q), path=q), what + " then reading again", {2} if outcome == "new" else {1}, fmt0, fmt, compare, must=True)
        again = proc(lambda: write(es2, q, fmt), path=q)
        if again["err"]:
            raise Violation("rewrite-fails", "after %s, writing again fails: %s" % (what, tail(again["err"])))
        judge(proc(lambda: read(q), path=q), what + " then written again", {2}, fmt0, fmt, compare, must=True)
        probes["rewritten"] = True
        probes["read_" + outcome] = True
        ctx.event(k, fired, outcome)
        ctx.sigs.add(util.digest([fmt, fmt0, plan["dask"], fired, outcome, t["first"]]))
    if plan["tar"]:
        import tarfile
        tf = os.path.join(root, "store.tar")
        with tarfile.open(tf, "w") as t:
            t.add(p + "/data_description.json", arcname="/data_description.json")
            t.add(p + "/data", arcname="/data")
        rt = proc(lambda: full(ft.read_entityset(tf)), path=p)
        if rt["err"] and plan["dask"] and "FileNotFoundError" in str(rt["err"]):
            raise Violation("read-fails", "data of a Dask EntitySet read from an archive is gone once read_entityset has returned: " + tail(rt["err"]),
                            "P08:dask-archive-lazy")
        check_read(rt, 2, "archive of %s" % fmt, fmt, compare)
        if rt["left"]:
            raise Violation("temporary-files-left", "reading an archive left %r behind" % rt["left"])
        probes["tar"] = True
    os.chdir(cwd)
    for name, c in probes.items():
        if c:
            ctx.hit("probe." + name)
    ctx.nontrivial = True
    ctx.event(w1["log"], w2["n"], r2["nr"] > 0)
    ctx.sample = {"format": fmt, "before": fmt0, "operations": w2["n"], "dask": plan["dask"], "extras": [x["k"] for x in plan["extras"]]}


def full(es):
    d = escmp.canon(escmp.describe(es))
    m = escmp.metadata(es)
    d["metadata"] = {k: [m["entities"][k][x] for x in ("index", "time_index", "variables")] for k in m["entities"]}
    return d


def tail(err):
    return " | ".join(err[2].strip().splitlines()[-5:])[-700:] if len(err) > 2 else str(err)


def same(want, got, fmt):
    import copy
    want, got = copy.deepcopy(want), copy.deepcopy(got)
    above = {e for e, w in want["entities"].items() if w["has_lti"]}
    for _ in want["relationships"]:
        above |= {r[0] for r in want["relationships"] if r[2] in above}
    for e in want["entities"]:
        w = want["entities"][e]
        g = got["entities"].get(e)
        if g is None:
            break
        if not w["has_lti"] and e in above:  # reading marks parents of marked entities as well
            for x in (w, g):
                x.pop("lti", None)
                x["has_lti"] = None
        if g["kind"] != "pandas":
            for x in (w, g):                 # partitions have no common row order
                cols = sorted(x["rows"])
                rows = sorted(zip(*[x["rows"][c] for c in cols]), key=repr) if cols else []
                x["rows"] = {"all": rows}
                x.pop("row_index", None)
        if fmt == "parquet" and "z_obool" in w.get("columns", ()) and "all" not in w["rows"]:
            for x in (w, g):
                x["dtypes"].pop("z_obool", None)
                x["rows"]["z_obool"] = [("num", int(y[1])) if isinstance(y, tuple) else y for y in x["rows"].get("z_obool", [])]
    return escmp.diff(want, got)


def check_read(r, which, what, fmt, compare):
    if r["err"]:
        raise Violation("read-fails", "reading after %s fails: %s" % (what, tail(r["err"])))
    d = compare(r["val"], which, what, fmt)
    if d:
        raise Violation("read-differs", "%s: %s" % (what, d))


def judge(r, what, allowed, fmt0, fmt, compare, must):
    """-> 'failed' | 'old' | 'new'"""
    if r["err"] is not None:
        if must:
            raise Violation("read-fails", "%s: reading fails: %s" % (what, tail(r["err"])))
        return "failed"
    ds = {}
    for k in allowed:
        d = compare(r["val"], k, what, fmt if k == 2 else fmt0)
        if d is None:
            return "new" if k == 2 else "old"
        ds[k] = d
    raise Violation("mixture", "%s: what is read is neither whole EntitySet: %s" % (what, " / ".join("versus %s: %s" % ({1: "old", 2: "new"}[k], d) for k, d in ds.items())))
