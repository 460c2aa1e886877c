"""P04: saved progress is complete, exact and survives crashes and disk faults."""
import os
import re
from collections import Counter

from sim import calls, util
from sim import workload as W
from sim.util import Violation

PROP = "P04"
LEVEL = "fault_enumeration"
TECHNIQUE = "simulated disk (crash, torn and short writes, full disk, I/O errors at seeded operations) under serial and simulated-cluster runs; directory checked before every disk operation and after every crash"
NOTE = ("Calculations with save_progress run with every file operation passing through a simulated disk; the directory is checked before every "
        "operation, and runs with injected crashes and errors are checked and then repeated over their leftovers. A crash is the death of the "
        "process: completed writes survive it.")
CLUSTER = True
RUNS = {"quick": 220, "thorough": 30000}
RUN_TIMEOUT = 60
RULE = ("one run = one generated calculation run without saving, with saving (directory checked before every disk operation), and two or three "
        "times with an injected crash, disk error, worker death or two workers at work in the directory at once, followed by a rerun over the leftovers; distinct_nontrivial counts distinct "
        "(fault kind, operation, ordinal, files left, parts) signatures among runs with at least two parts")
MEASURE = "distinct (fault kind, disk operation, ordinal, final files at that moment, number of parts, serial or parallel)"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "kernel file system below a scratch directory"]
STUB = ["system calls below the scratch directory: build/libftsim.so decides each one", "dask.distributed: sim/cluster.py", "wall clock"]
ASSUMPTIONS = ["writes completed before a process crash survive it (no power loss)"]
PROBES = ["serial", "parallel", "chunked", "numeric_time", "approx", "all_approximated", "window", "crash", "crash_mid_write", "enospc", "eio",
          "short", "leftovers_reused", "same_hour_of_day", "worker_fault", "fault_raised", "same_time_two_chunks", "new_directory", "overlap", "via_dfs"]
SHRINK = ["trials", "cl.faults", "case.ct.rows", "case.specs", "case.ds.entities.*.rows"]


def gen(rng, i):
    case = calls.gen_case(rng, windows=0.2, approximate=0.3, single=0.0, maxrows=12, nspecs=(1, 3))
    if case["approx"] and rng.random() < 0.4:
        ap = {r for _, r in calls.approximated(case)}
        keep = [s for s in case["specs"] if s["k"] == "dir" and repr(s["b"]) in ap]
        if keep and not calls.unapprox_agg(dict(case, specs=keep)):
            case["specs"] = keep
    if not case["ds"]["numeric_time"] and rng.random() < 0.3:
        rows = case["ct"]["rows"]
        more = [[r[0], r[1] + 720] for r in rows[:3] if [r[0], r[1] + 720] not in [list(x[:2]) for x in rows]]
        case["ct"]["rows"] = rows + more
    plan = {"case": case, "chunk": rng.choice([None, 1, 2, 3, 0.4]), "n_jobs": rng.choice([1, 1, 2, 3]),
            "fresh": rng.random() < 0.3, "clock": rng.choice([1600000000, 1600003599.5, 1234567890]),
            "cl": {"seed": rng.randrange(10 ** 6), "workers": rng.randint(1, 3), "faults": [], "mode": "proc", "replicate": 1.0}}
    trials = []
    for _ in range(rng.choice([2, 2, 3])):
        k = rng.choice(["crash", "crash", "crash", "enospc", "eio", "short", "die", "overlap", "overlap"])
        t = {"kind": k, "pos": rng.random(), "frac": rng.choice([0, 0.3, 0.9]), "sticky": rng.random() < 0.4}
        if k in ("die", "overlap"):
            if plan["n_jobs"] == 1:
                t["kind"] = "crash"
            elif k == "overlap":
                t["same"] = rng.random() < 0.6
            else:
                t["line"] = rng.randint(1, 900)
                t["n"] = rng.randint(1, 4)
                t["at"] = rng.choice(["mid", "mid", "end"])
        trials.append(t)
    plan["trials"] = trials
    return plan


NUM = re.compile(r"^[-+]?(\d|inf|nan)", re.I)


def canon(v):
    """A cell of the matrix, or its text in a csv file, in one notation."""
    if v is None:
        return ""
    if not isinstance(v, str):
        try:
            if v != v:
                return ""
        except Exception:
            pass
        v = str(v)
    if v in ("", "nan", "NaN", "NaT", "None", "<NA>"):
        return ""
    if v in ("True", "False"):
        return "1.0" if v == "True" else "0.0"
    if re.match(r"^\d{4}-\d\d-\d\d", v):
        import pandas as pd
        try:
            return pd.Timestamp(v).isoformat()
        except Exception:
            return v
    if NUM.match(v):
        try:
            return repr(float(v))
        except ValueError:
            return v
    return v


def parse(data, names, what):
    """-> Counter of (id, values...) of one final file, whole rows only."""
    import csv
    import io
    try:
        rows = list(csv.reader(io.StringIO(data.decode())))
    except Exception as e:
        raise Violation("unreadable-file", "%s: %r" % (what, e))
    if not rows or not data.endswith(b"\n"):
        raise Violation("torn-file", "%s is empty or cut off (%d bytes)" % (what, len(data)))
    head = rows[0]
    missing = [n for n in names if n not in head]
    if missing:
        raise Violation("torn-file", "%s lacks the columns %r" % (what, missing))
    at = [0] + [head.index(n) for n in names]
    out = Counter()
    for r in rows[1:]:
        if len(r) != len(head):
            raise Violation("torn-file", "%s has a row of %d cells below %d columns" % (what, len(r), len(head)))
        out[tuple(canon(r[k]) for k in at)] += 1
    return out


def finals(root):
    """{name: bytes} of the files directly in the directory."""
    out = {}
    if os.path.isdir(root):
        for f in sorted(os.listdir(root)):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                with open(p, "rb") as fh:
                    out[f] = fh.read()
    return out


def run(plan, ctx):
    from sim import cluster, seams
    from sim.seams import Clock
    case = plan["case"]
    Clock.start(plan["clock"])
    parallel = plan["n_jobs"] > 1

    def call(save, faults=(), before=None):
        es, fs, names = calls.build(case)
        kw = calls.cutoff_args(case)
        if plan["chunk"]:
            kw["chunk_size"] = plan["chunk"]
        if parallel:
            sim = cluster.start(dict(plan["cl"], faults=list(faults), workers=max(plan["cl"]["workers"], len(faults) + 1)))
            sim.before_task = before
            kw["n_jobs"] = max(plan["n_jobs"], plan["cl"]["workers"])
        if save is not None:
            kw["save_progress"] = save
        fm = calls.matrix(case, ctx, fs, es, **kw)
        return fm, names, ([f["k"] for f in sim.fired] if parallel else [])
    got, e = calls.attempt(lambda: call(None))
    if e is not None:
        return                                      # (other properties judge calls that raise)
    base, names, _ = got
    allapprox = bool(case["approx"]) and not calls.unapprox_agg(case)
    want = expected(case, base, names, allapprox)
    known = set(want)
    root = ctx.scratch()
    seen = {}

    def check_all(save, fm, what):
        if os.path.exists(os.path.join(save, "temp")):
            raise Violation("temp-left", "%s: the temporary directory is still there" % what)
        have = Counter()
        for f, data in finals(save).items():
            have += parse(data, names, "%s: a saved file" % what)
        lost = want - have
        if lost:
            raise Violation("rows-lost", "%s: %d of %d requested rows are in no saved file, e.g. %r" % (
                what, sum(lost.values()), sum(want.values()), sorted(lost)[0]))
        calls.same(fm, base, "matrix-differs", "%s: with versus without saving" % what)

    def check_parts(save, what, parts=None):
        for f, data in finals(save).items():
            c = parse(data, names, "%s: a final file" % what)
            bad = [r for r in c if r not in known]
            if bad:
                raise Violation("wrong-values", "%s: a final file holds the row %r, which the matrix does not have" % (what, bad[0]))
            if parts is not None and data not in parts:
                raise Violation("partial-file", "%s: a final file holds %d rows that are not a whole part" % (what, sum(c.values())))

    def saved(save, at=None, faults=(), watch=False, overlap=None):
        """In its own process: (matrix, operations, fired).

        overlap: (operation, same): at that file operation of a task another worker on the same file system
        carries out a whole task, the same (its first worker being presumed lost) or one still waiting."""
        def body():
            now, met = [], []

            def before(cl, w, t):
                if not now or now[-1] is not None:
                    now.append((cl, t))

            def meet():
                cl, t = now[-1]
                if not overlap[1] and cl.queue:
                    t = cl.queue[0]
                now.append(None)
                r, err = cl.execute(cluster.Worker(cl, 900), t)
                now.pop()
                met.append((overlap[1], type(err).__name__ if err is not None else None))
                if err is not None:
                    bad.append(("overlap-fails", "a task carried out on another worker at the same time fails: %r" % (err,)))
            states = []
            disk = seams.Disk(save, faults=[at] if at else [])
            bad = []

            def look(op, path):
                if bad:
                    return
                seams._lib.ftsim_disk_on(0)
                try:
                    if overlap and not met and disk.n >= overlap[0] and now:
                        meet()
                    check_parts(save, "before %s" % op)
                    states.append(len(finals(save)))
                except Violation as v:
                    bad.append((v.cls, v.detail))
                finally:
                    seams._lib.ftsim_disk_on(1)
            if watch or overlap:
                disk.yielder = look
            else:
                disk.on_crash = lambda: util.crash_note({"fired": disk.fired})
            with disk:
                err = fm = None
                fired = []
                try:
                    fm, _, fired = call(save, faults, before)
                except BaseException as ex:
                    err = util.exc_info(ex)
            return {"fm": fm, "err": err, "n": disk.n, "fired": disk.fired, "states": states, "bad": bad, "broken": disk.error,
                    "cluster": fired, "met": met, "log": [x[0] for x in disk.log]}
        kind, v = util.in_process(body)
        if kind == "crash":
            return {"crash": True, "fired": v["fired"]}
        if kind != "ok":
            raise RuntimeError("harness: %s %r" % (kind, v))
        if v["broken"]:
            raise RuntimeError("harness: " + v["broken"])
        return v

    def where(name):
        d = os.path.join(root, name)
        if not plan["fresh"]:
            os.makedirs(d)
        return d
    d0 = where("ref")
    ref = saved(d0, watch=True)
    if ref["bad"]:
        raise Violation(*ref["bad"][0])
    if ref["err"]:
        raise Violation("raises-with-saving", "the call fails when progress is saved: " + str(ref["err"][1])[:300] + " " + ref["err"][2][-500:])
    check_all(d0, ref["fm"], "undisturbed run")
    check_parts(d0, "undisturbed run")
    files = finals(d0)
    parts = set(files.values())
    probes = {"serial": not parallel, "parallel": parallel, "chunked": bool(plan["chunk"]), "numeric_time": case["ds"]["numeric_time"],
              "approx": bool(case["approx"]), "all_approximated": allapprox, "window": bool(case["window"]), "new_directory": plan["fresh"],
              "same_hour_of_day": any(a[1] - b[1] == 720 for a in case["ct"]["rows"] for b in case["ct"]["rows"]),
              "same_time_two_chunks": len(files) > len({r[1] for r in case["ct"]["rows"]})}
    fired_kinds = []
    for k, t in enumerate(plan["trials"]):
        d = where("t%d" % k)
        what = "run with fault %s" % t["kind"]
        if t["kind"] == "die":
            r = saved(d, faults=[{"k": "die", "n": t["n"], "at": t["at"], "line": t["line"]}])
            if "die" in r["cluster"]:
                probes["worker_fault"] = True
                ctx.hit("fault.worker_died")
        elif t["kind"] == "overlap":
            r = saved(d, overlap=(1 + int(t["pos"] * ref["n"]), t["same"]))
            if r["met"]:
                probes["overlap"] = True
                ctx.hit("fault.overlapping_workers")
                fired_kinds.append(("overlap", t["same"]))
            if r["bad"]:
                raise Violation(*r["bad"][0])
        else:
            at = {"at": 1 + int(t["pos"] * ref["n"]), "kind": t["kind"], "frac": t["frac"], "sticky": t["sticky"]}
            r = saved(d, at)
        for f in r["fired"]:
            ctx.hit("fault." + f["kind"])
            probes[f["kind"]] = True
            if f["kind"] == "crash" and f["op"] == "write" and t["frac"]:
                probes["crash_mid_write"] = True
            fired_kinds.append((f["kind"], f["op"], f["n"]))
        check_parts(d, what, parts)
        left = len(finals(d))
        ctx.event(k, t["kind"], [(f["kind"], f["op"], f["n"]) for f in r["fired"]], left, bool(r.get("err")), bool(r.get("crash")))
        if len(files) > 1:
            ctx.sigs.add(util.digest([t["kind"], [(f["kind"], f["op"], f["n"]) for f in r["fired"]], left, len(files), parallel]))
        if not r.get("crash"):
            if r["err"] is None:
                check_all(d, r["fm"], what)
            elif not r["fired"]:
                raise Violation("raises-with-saving", "%s fails: %s" % (what, r["err"][1][:300] + " " + r["err"][2][-500:]))
            else:
                probes["fault_raised"] = True
        if r.get("crash") or r.get("err"):
            again = saved(d)
            if again["err"]:
                raise Violation("rerun-fails", "rerun over the leftovers of a %s fails: %s" % (what, again["err"][2][-600:]))
            check_all(d, again["fm"], "rerun after " + what)
            check_parts(d, "rerun after " + what, parts)
            probes["leftovers_reused"] = probes.get("leftovers_reused") or left > 0
    for p, c in probes.items():
        if c:
            ctx.hit("probe." + p)
    ctx.nontrivial = len(files) > 1 and bool(fired_kinds)
    ctx.event(len(files), ref["n"], ref["states"][-1:], ref["log"])
    ctx.sample = {"parts": len(files), "disk operations": ref["n"], "faults": fired_kinds, "parallel": parallel}


def expected(case, base, names, allapprox):
    rows = calls.rows_of(case)
    cols = [list(base[n]) for n in names]
    out = Counter()
    done = set()
    for k, (i, t) in enumerate(rows):
        if allapprox:
            import pandas as pd
            a = case["approx"]
            b = pd.Timestamp(W.ts(case["ds"], t)).floor("%d%s" % (a[0], {"m": "t", "h": "h", "d": "d"}[a[1]]))
            if (i, b) in done:
                continue
            done.add((i, b))
        out[tuple([canon(i)] + [canon(c[k]) for c in cols])] += 1
    return out
