"""P16: third-party hooks see each call once; failing plugins never prevent the import."""
import importlib
import os
import sys
import threading

from sim import util
from sim.util import Violation

PROP = "P16"
LEVEL = "exploration"
TECHNIQUE = ("simulated installation: generated third-party distributions (hooks, initializers, plugins, primitive lists) with seeded failures, "
             "a virtual clock and seeded interleavings of concurrent calls; the recorded event history is checked")
NOTE = ("Each run installs a generated set of third-party distributions on a private sys.path, imports featuretools afresh and calls dfs and wrapped "
        "functions, alone or from interleaved threads; every event a hook receives is recorded and checked. The installed packages are stubs.")
NO_FT = True
RUNS = {"quick": 1200, "thorough": 20000}
RUN_TIMEOUT = 90
RULE = ("one run = one generated set of installed distributions with a fresh import of featuretools and a history of wrapped calls; "
        "distinct_nontrivial counts distinct (kinds and failures of plugins, hook counts, call outcomes, interleaving) signatures of runs with a "
        "failing plugin or at least two hooks")
MEASURE = "distinct (installation, call outcomes, interleaving)"
REAL = ["featuretools (all of it, imported afresh in every run)", "pkg_resources entry-point discovery on real dist-info directories"]
STUB = ["third-party distributions (generated)", "wall clock: build/libftsim.so", "thread scheduling: sim/threads.py"]
ASSUMPTIONS = ["hooks themselves do not raise when called", "a plugin fails with an Exception (not SystemExit or a killed process)"]
PROBES = ["plugin_fails", "plugin_ok", "init_fails", "init_ok", "prims_fail", "prims_ok", "hooks2", "call_ok", "call_raises", "call_interrupted",
          "concurrent", "switched", "dfs_ok", "dfs_raises", "hook_edits_dict", "slow_hook", "clock_back", "nested"]
SHRINK = ["dists", "calls", "switches"]

FAIL = ["", "", "raise ValueError('third party')", "import not_there_at_all", "raise ImportError('x')", "this is (not python",
        "raise AttributeError('q')", "raise RecursionError('deep')", "raise MemoryError()", "1/0", "raise OSError(28, 'No space left on device')",
        "raise StopIteration", "class Odd(Exception):\n    def __str__(self):\n        raise RuntimeError('nested')\nraise Odd()"]
KINDS = ["init", "init", "plugin", "plugin", "prims", "hook", "hook", "hook"]


def gen(rng, i):
    dists = []
    for d in range(rng.randint(1, 5)):
        pts = []
        for k in range(rng.randint(1, 3)):
            kind = rng.choice(KINDS)
            p = {"k": kind, "n": "%s%d_%d" % (kind, d, k)}
            if kind == "hook":
                p["edit"] = rng.choice([None, None, "pop", "set", "clear"])
                p["slow"] = rng.choice([0, 0, 0, 500])
            elif kind == "init":
                p["fail"] = rng.choice(FAIL)
                p["when"] = rng.choice(["load", "call"])
                p["what"] = rng.choice(["func", "func", "func", "const", "missing", "reentrant"])
            elif kind == "plugin":
                p["fail"] = rng.choice(FAIL)
                p["what"] = rng.choice(["module", "module", "attr", "missing"])
            else:
                p["fail"] = rng.choice(FAIL)
                p["what"] = rng.choice(["list", "list", "tuple", "notlist", "junk_last", "missing"])
            pts.append(p)
        dists.append({"pts": pts, "req": rng.random() < 0.12})
    cs = []
    for c in range(rng.randint(1, 4)):
        cs.append({"f": rng.choice(["plain", "plain", "plain", "kw", "nested", "dfs"]), "pos": rng.randint(0, 3),
                   "out": rng.choice(["ret", "ret", "none", "raise", "raise", "interrupt"]), "adv": rng.choice([0, 0.5, 120]),
                   "thread": 0})
    plan = {"dists": dists, "calls": cs, "switches": [], "tick": rng.choice([0, 0.001]), "jump": rng.random() < 0.1}
    if rng.random() < 0.3:
        for k, c in enumerate(cs):
            c["thread"] = k % 2
            c["out"] = rng.choice(["ret", "raise"])
            if c["f"] == "dfs":
                c["f"] = "plain"
        plan["switches"] = sorted([rng.randint(1, 120), rng.randrange(3)] for _ in range(rng.randint(1, 12)))
        plan["tick"], plan["jump"] = 0, False
    return plan


def WARMUP():
    for m in ("numpy", "pandas", "dask.dataframe", "distributed", "pkg_resources", "tqdm", "psutil", "yaml", "click", "scipy", "scipy.stats", "cloudpickle"):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def ind(code, by="    "):
    return "\n".join(by + x for x in code.split("\n"))


def install(plan, root):
    """Writes the distributions below root, one directory each, and puts them on the path in order."""
    import pkg_resources
    for d, dist in enumerate(plan["dists"]):
        base = os.path.join(root, "site%d" % d)
        os.makedirs(os.path.join(base, "third%d-1.0.dist-info" % d))
        groups = {}
        for p in dist["pts"]:
            mod = "mod_" + p["n"]
            k = p["k"]
            src = "import ftsim_events as E\nE.log('load', %r)\n" % p["n"]
            fail = p.get("fail") or ""
            target = mod
            if k == "hook":
                target += ":Hook"
                src += ("class Hook(object):\n"
                        "    def __init__(self):\n        self.me = E.new(%r)\n"
                        "    def on_call(self, kwargs):\n        E.hook(self.me, 'call', kwargs)\n        E.after_call(%r, %r, kwargs)\n"
                        "    def on_error(self, error, runtime):\n        E.hook(self.me, 'error', error, runtime)\n"
                        "    def on_return(self, return_value, runtime):\n        E.hook(self.me, 'return', return_value, runtime)\n"
                        ) % (p["n"], p["edit"], p["slow"])
                group = "featuretools_dfs"
                groups.setdefault("ftsim_group", []).append((p["n"], target))
            elif k == "init":
                group = "featuretools_initialize"
                if p["what"] == "const":
                    src += "start = 7\n"
                elif p["what"] == "func":
                    src += "def start():\n    E.log('init', %r)\n%s\n" % (p["n"], ind(fail) if fail and p["when"] == "call" and "not python" not in fail else "")
                elif p["what"] == "reentrant":
                    src += "import featuretools\ndef start():\n    featuretools.EntitySet\n    E.log('init', %r)\n%s\n" % (
                        p["n"], ind(fail) if fail and p["when"] == "call" and "not python" not in fail else "")
                if fail and (p["when"] == "load" or "not python" in fail):
                    src += fail + "\n"
                target += ":start"
            elif k == "plugin":
                group = "featuretools_plugin"
                if p["what"] == "attr":
                    src += "class thing(object):\n    who = %r\n" % p["n"]
                    target += ":thing"
                elif p["what"] == "missing":
                    target += ":absent"
                src += "who = %r\n" % p["n"] + (fail + "\n" if fail else "")
            else:
                group = "featuretools_primitives"
                src += ("from featuretools.primitives import TransformPrimitive\n"
                        "from featuretools.variable_types import Numeric\n"
                        "class T%s(TransformPrimitive):\n    name = %r\n    input_types = [Numeric]\n    return_type = Numeric\n"
                        "    def get_function(self):\n        return lambda x: x\n") % (p["n"], "t_" + p["n"])
                src += {"list": "ALL = [T%s]", "tuple": "ALL = (T%s,)", "notlist": "ALL = 3", "junk_last": "ALL = [T%s, 5]", "missing": ""}[p["what"]] % (
                    (p["n"],) if p["what"] in ("list", "tuple", "junk_last") else ())
                src += "\n" + (fail + "\n" if fail else "")
                target += ":ALL"
            groups.setdefault(group, []).append((p["n"], target))
            with open(os.path.join(base, mod + ".py"), "w") as f:
                f.write(src)
        info = os.path.join(base, "third%d-1.0.dist-info" % d)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: third%d\nVersion: 1.0\n" % d + ("Requires-Dist: not-installed-anywhere (>=3)\n" if dist["req"] else ""))
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            for g, items in groups.items():
                f.write("[%s]\n%s\n" % (g, "\n".join("%s = %s" % it for it in items)))
        sys.path.append(base)
        pkg_resources.working_set.add_entry(base)
    importlib.invalidate_caches()


class Events:
    def __init__(self):
        self.seq = []
        self.made = 0
        self.inst = {}

    def log(self, *a):
        self.seq.append(a)

    def new(self, name):
        self.made += 1
        self.inst[self.made] = (name, threading.get_ident())
        return self.made

    def hook(self, me, what, payload, runtime=None):
        if what == "call":
            payload = dict(payload)
        self.seq.append(("hook", me, self.inst[me][0], what, payload, runtime, threading.get_ident()))

    def after_call(self, edit, slow, kwargs):
        if edit == "pop" and kwargs:
            kwargs.pop(sorted(kwargs)[0])
        elif edit == "set":
            kwargs["x"] = "changed"
            kwargs["more"] = 1
        elif edit == "clear":
            kwargs.clear()
        if slow:
            from sim.seams import Clock
            Clock.advance(slow)


class Boom(Exception):
    pass


def run(plan, ctx):
    from sim import threads
    from sim.seams import Clock
    root = ctx.scratch()
    E = Events()
    mod = type(sys)("ftsim_events")
    for k in ("log", "new", "hook", "after_call"):
        setattr(mod, k, getattr(E, k))
    sys.modules["ftsim_events"] = mod
    install(plan, root)
    Clock.start(1600000000)
    sys.path.insert(0, util.REPO)
    # ---- the import
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import featuretools as ft
    except BaseException as e:
        raise Violation("import_fails", "%s: %s" % (type(e).__name__, e))
    if not os.path.realpath(ft.__file__).startswith(os.path.realpath(util.REPO) + os.sep):
        raise RuntimeError("featuretools from %s" % ft.__file__)
    loaded = list(E.seq)
    want_init, prims = [], {}
    kinds = []
    for d, dist in enumerate(plan["dists"]):
        for p in dist["pts"]:
            ok = not dist["req"] and not (p.get("fail") and (p["k"] != "init" or p["when"] == "load" or "not python" in p["fail"]))
            if p["k"] == "init":
                runs = ok and p["what"] in ("func", "reentrant")
                ctx.hit("probe.init_ok" if runs and not p["fail"] else "probe.init_fails")
                if runs:
                    want_init.append(p["n"])
                kinds.append("I%d" % runs)
            elif p["k"] == "plugin":
                ok = ok and p["what"] != "missing"
                have = sys.modules.get("featuretools." + p["n"])
                ctx.hit("probe.plugin_ok" if ok else "probe.plugin_fails")
                if ok and getattr(have, "who", None) != p["n"]:
                    raise Violation("plugin_not_loaded", "%s is not available as featuretools.%s (%r)" % (p, p["n"], have))
                if not ok and have is not None:
                    raise Violation("broken_plugin_loaded", "%s" % p)
                kinds.append("P%d" % ok)
            elif p["k"] == "prims":
                ok = ok and p["what"] in ("list", "tuple", "junk_last")
                prims[p["n"]] = ok
                ctx.hit("probe.prims_ok" if ok else "probe.prims_fail")
                kinds.append("T%d" % ok)
    got_init = [a[1] for a in loaded if a[0] == "init"]
    if got_init != want_init:
        raise Violation("initializers", "called %s, expected %s" % (got_init, want_init))
    names = set(ft.list_primitives()["name"]) if prims else set()
    for n, ok in prims.items():
        if ok and (getattr(ft.primitives, "T" + n, None) is None or "t_" + n not in names):
            raise Violation("primitives_not_loaded", n)
    # ---- the calls
    from featuretools.utils.entry_point import entry_point
    reg = [p["n"] for d in plan["dists"] if not d["req"] for p in d["pts"] if p["k"] == "hook"]
    if any(d["req"] and any(p["k"] == "hook" for p in d["pts"]) for d in plan["dists"]):
        ctx.sigs.add("unmet hook requirement")
        return                                   # (a hook whose distribution cannot be loaded stops the call: out of scope)
    import pkg_resources
    order = [e.name for e in pkg_resources.iter_entry_points("ftsim_group")]
    if sorted(order) != sorted(reg):
        raise RuntimeError("installed %s, discovered %s" % (reg, order))
    by = {p["n"]: p for d in plan["dists"] for p in d["pts"] if p["k"] == "hook"}
    if len(order) > 1:
        ctx.hit("probe.hooks2")
    for n in order:
        if by[n]["edit"]:
            ctx.hit("probe.hook_edits_dict")
        if by[n]["slow"]:
            ctx.hit("probe.slow_hook")

    @entry_point("ftsim_group")
    def plain(x, y=2, z=None, **kw):
        return x["do"](x, y, z, kw)

    @entry_point("ftsim_group")
    def inner(x):
        return x["do"](x, None, None, {})

    made = []

    def one(c, k):
        out = {"ret": ["value", k], "none": None, "raise": Boom("b%d" % k), "interrupt": KeyboardInterrupt()}[c["out"]]
        rec = {"c": c, "out": out, "spec": None, "body": 0, "args": None, "t": threading.get_ident(), "start": len(E.seq)}
        seen = {}

        def do(x, y, z, kw):
            rec["body"] += 1
            seen["args"] = (x, y, z, dict(kw))
            E.log("body", k, threading.get_ident())
            if c["adv"] and not plan["switches"]:
                Clock.advance(c["adv"])
            if c["f"] == "nested" and x is a[0]:
                rec["nested"] = inner({"do": lambda *q: ["in", k]})
            if isinstance(out, BaseException):
                raise out
            return out
        a = [{"do": do}, ["y", k], ("z", k)]
        if c["f"] == "kw":
            args, kwargs = (), {"z": a[2], "x": a[0], "extra": k}
        else:
            n = max(1, c["pos"])
            args, kwargs = tuple(a[:n]), dict(zip(["x", "y", "z"][n:], a[n:]))
            if c["f"] == "nested":
                kwargs["extra"] = [k]
        given = dict(zip(["x", "y", "z"], args))
        given.update(kwargs)
        rec["given"] = given
        if plan["jump"]:
            ctx.hit("probe.clock_back")
            Clock.jump_at(Clock.reads() + 2, -5000)
        try:
            rec["got"] = ("ret", plain(*args, **kwargs))
        except BaseException as e:
            if isinstance(e, threads._Abort):
                raise
            rec["got"] = ("exc", e)
        rec["seen"] = seen.get("args")
        rec["end"] = len(E.seq)
        made.append(rec)

    if plan["tick"]:
        Clock.tick(plan["tick"])
    todo = [(k, c) for k, c in enumerate(plan["calls"])]
    if plan["switches"]:
        ctx.hit("probe.concurrent")
        b = threads.Baton(plan["switches"])
        for t in (0, 1):
            b.spawn("t%d" % t, lambda t=t: [one(c, k) for k, c in todo if c["thread"] == t])
        b.run(by_line=True)
        if b.trace:
            ctx.hit("probe.switched")
        for th in b.threads:
            if th.exc is not None:
                raise Violation("thread_failed", "%s: %r" % (th.name, th.exc))
        inter = [t for _, t in b.trace]
    else:
        inter = []
        for k, c in todo:
            if c["f"] == "dfs":
                dfs_call(ft, c, order, E, ctx, by)
            else:
                one(c, k)
    for rec in made:
        judge(rec, order, E, ctx, plan, by)
    ctx.event("seq", [(a[0], a[1] if a[0] != "hook" else a[2:4]) for a in E.seq])
    ctx.sigs.add("%s|%s|%s|%s" % ("".join(kinds), len(order), ["%s%s" % (c["f"][0], c["out"]) for c in plan["calls"]], inter[:8]))
    ctx.nontrivial = len(order) > 1 or any(k.endswith("0") for k in kinds)
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"hooks": len(order), "plugins": kinds, "calls": len(plan["calls"]), "switches": len(inter)}


def judge(rec, order, E, ctx, plan, by):
    c, out = rec["c"], rec["out"]
    what = "call %s" % c
    if rec["body"] != 1:
        raise Violation("body_runs", "%s: the wrapped function ran %d times" % (what, rec["body"]))
    kind, val = rec["got"]
    if isinstance(out, BaseException):
        ctx.hit("probe.call_interrupted" if c["out"] == "interrupt" else "probe.call_raises")
        if kind != "exc" or val is not out:
            raise Violation("wrong_outcome", "%s: raised %r, the caller got %r" % (what, out, val))
    else:
        ctx.hit("probe.call_ok")
        if kind != "ret" or val is not out:
            raise Violation("wrong_outcome", "%s: returned %r, the caller got %r" % (what, out, val))
    x, y, z, kw = rec["seen"]
    given = rec["given"]
    now = dict(kw, x=x, y=y, z=z)
    want = dict({"y": 2, "z": None}, **given)
    if set(now) != set(want) or any(now[k] is not want[k] and not (k not in given and now[k] == want[k]) for k in want):
        raise Violation("call_changed", "%s: called with %s, the function got %s" % (what, sorted(want), sorted(now)))
    ev = [a for a in E.seq[rec["start"]:rec["end"]] if a[0] == "hook" and a[6] == rec["t"]]
    if c["f"] == "nested":
        ctx.hit("probe.nested")
        if rec["nested"][0] != "in":
            raise Violation("nested", what)
        mine = [a for a in ev if a[3] == "call" and "y" in a[4] or a[3] == "call" and "extra" in a[4]]
        # hooks of the inner call were made while the outer one ran
        ids = {a[1] for a in mine}
        if order and len(ids) != len(order):
            raise Violation("hook_calls", "%s: hooks of the outer call %s" % (what, [a[1:4] for a in ev]))
        innerev = [a for a in ev if a[1] not in ids]
        ev = [a for a in ev if a[1] in ids]
        if [a[2:4] for a in innerev] != [(n, "call") for n in order] + [(n, "return") for n in order]:
            raise Violation("hook_calls", "%s: inner call events %s" % (what, [a[2:4] for a in innerev]))
    end = {"ret": "return", "none": "return", "raise": "error", "interrupt": None}[c["out"]]
    expect = [(n, "call") for n in order] + ([(n, end) for n in order] if end else [])
    got = [a[2:4] for a in ev]
    if end is None and got == expect + [(n, "error") for n in order]:
        end = "error"
    elif got != expect:
        raise Violation("hook_calls", "%s: expected %s, events %s" % (what, expect, got))
    pos = [k for k, a in enumerate(E.seq[rec["start"]:rec["end"]]) if a[0] == "body" and a[2] == rec["t"]]
    for a in ev:
        k = E.seq.index(a) - rec["start"]
        if a[3] == "call":
            if k > pos[0]:
                raise Violation("late_on_call", "%s: on_call of %s after the function ran" % (what, a[2]))
            seen = a[4]
            if set(seen) != set(given) or any(seen[n] is not given[n] for n in given):
                raise Violation("hook_arguments", "%s: given %s, hook %s was told %s" % (what, sorted(given), a[2], sorted(seen)))
        else:
            if k < pos[0]:
                raise Violation("early_end", "%s: %s of %s before the function ran" % (what, a[3], a[2]))
            if a[4] is not out:
                raise Violation("hook_payload", "%s: %s, hook %s was told %r" % (what, out, a[2], a[4]))
            if not plan["jump"]:
                rt = a[5]
                slow = sum(by[n]["slow"] for n in order) if c["f"] == "nested" else 0
                lo = 0 if plan["switches"] else c["adv"] + slow
                if not isinstance(rt, (int, float)) or rt < lo - 1e-6 or (not plan["switches"] and rt > lo + 0.2):
                    raise Violation("elapsed", "%s: the function took %s s of simulated time, hook %s was told %s" % (what, lo, a[2], rt))


def dfs_call(ft, c, order, E, ctx, by):
    import pandas as pd
    df = pd.DataFrame({"id": [1, 2, 3], "v": [1.0, 2.0, 5.0]})
    ents = {"e": (df, "id")}
    before = len(E.seq)
    bad = c["out"] in ("raise", "interrupt")
    kwargs = {"target_entity": "nope" if bad else "e", "trans_primitives": ["absolute"], "max_depth": 1}
    try:
        got = ft.dfs(ents, [], **kwargs) if c["pos"] > 1 else ft.dfs(entities=ents, relationships=[], **kwargs)
        err = None
    except Exception as e:
        got, err = None, e
    ctx.hit("probe.dfs_raises" if err else "probe.dfs_ok")
    if bool(err) != bad:
        raise Violation("dfs_outcome", "dfs(%s): %r" % (kwargs, err))
    ev = [a for a in E.seq[before:] if a[0] == "hook"]
    end = "error" if bad else "return"
    expect = [(n, "call") for n in order] + [(n, end) for n in order]
    if [a[2:4] for a in ev] != expect:
        raise Violation("hook_calls", "dfs: expected %s, events %s" % (expect, [a[2:4] for a in ev]))
    for a in ev:
        if a[3] == "call":
            w = dict(kwargs, entities=ents, relationships=[])
            if set(a[4]) != set(w) or a[4]["entities"] is not ents or any(a[4][k] != kwargs[k] for k in kwargs):
                raise Violation("hook_arguments", "dfs: given %s, hook %s was told %s" % (sorted(w), a[2], sorted(a[4])))
        elif bad and a[4] is not err or not bad and a[4] is not got:
            raise Violation("hook_payload", "dfs: hook %s was told %r" % (a[2], a[4]))
    if not bad:
        fm, fl = got
        if list(fm.columns) != ["v", "ABSOLUTE(v)"] or fm["ABSOLUTE(v)"].tolist() != [1.0, 2.0, 5.0]:
            raise Violation("dfs_result", fm.to_string())
