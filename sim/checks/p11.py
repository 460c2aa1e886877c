"""P11: remote transfers of entitysets and features are all-or-nothing."""
import os

from sim import storage, util
from sim import workload as W
from sim.checks import p08, p10
from sim.util import Violation

PROP = "P11"
LEVEL = "fault_enumeration"
TECHNIQUE = "simulated object store and web server under the real smart_open: seeded refusals, broken, truncated, slow and lost transfers and crashes at every request; each later read compared with the objects uploaded"
NOTE = ("EntitySets and feature lists are uploaded to, overwritten in and downloaded from a simulated store, with a fault at a seeded request, under every choice of "
        "credentials; reads must give one whole uploaded object or fail, temporary files must be gone, and a repetition must succeed.")
RUNS = {"quick": 200, "thorough": 30000}
RUN_TIMEOUT = 60
RULE = ("one run = an EntitySet or feature list uploaded, read back, and overwritten in three to six trials that each have a fault at a seeded request of the upload "
        "and of the download and are then repeated without; distinct_nontrivial counts distinct (kind, format, transport, credentials, faults, outcomes) digests")
MEASURE = "distinct (object kind, transport, credentials, part and segment size, fault, request, outcome) digests"
REAL = ["featuretools (all of it, from /repo's working tree)", "pandas", "smart_open", "tarfile", "kernel file system below a scratch directory"]
STUB = ["boto3 clients and sessions, requests: sim/net.py", "time.sleep and wall clock", "system calls below the temporary directory: build/libftsim.so (local disk faults)"]
ASSUMPTIONS = ["the store makes an object visible when its upload completes, whole", "a body cut off without any sign ends at an arbitrary byte"]
PROBES = ["entityset", "features", "s3", "http", "refuse", "connect", "drop", "timeout", "lost", "truncate", "slow", "interrupt", "crash", "retried_inside", "read_old",
          "read_new", "read_failed", "multipart", "segmented", "profile", "anonymous", "default", "no_credentials", "local_disk", "denied"]
SHRINK = ["trials", "extras", "marks", "specs", "specs2"]


def gen(rng, i):
    what = rng.choice(["entityset", "entityset", "features"])
    ds = W.gen_dataset(rng, sizes=(2, 7))
    plan = {"what": what, "ds": ds, "tgt": rng.choice([e["id"] for e in ds["entities"]]), "shuffle": rng.randrange(1 << 30), "case": {"ds": ds},
            "extras": storage.gen_extras(rng, ds) if what == "entityset" and rng.random() < 0.5 else [], "marks": storage.gen_marks(rng, ds, []),
            "fmt": rng.choice(["csv", "pickle", "parquet"]), "transport": rng.choice(["s3", "s3", "s3", "http"]),
            "cred": rng.choice([["profile", "sim"], ["profile", "other"], ["anonymous", False], ["default", None], ["default", None], ["none", None]]),
            "segment": rng.choice([0, 0, 7, 100, 3000]), "part": rng.choice([0, 0, 500, 4000]), "seed": rng.randrange(1 << 30), "private": False}
    if rng.random() < 0.15:
        plan["private"] = True
    if what == "features":
        plan["specs"] = p10.gen_list(rng, ds, plan["tgt"])
        plan["specs2"] = p10.gen_list(rng, ds, plan["tgt"])
    trials = []
    for _ in range(rng.choice([3, 4, 6])):
        kinds = ["refuse", "connect", "drop", "timeout", "lost", "slow", "interrupt", "crash"]
        trials.append({"first": rng.random() < 0.25,
                       "up": {"kind": rng.choice(kinds), "pos": rng.random(), "frac": rng.choice([0, 0.3, 0.9]), "for": rng.choice([1, 1, 3, 40]), "sticky": rng.random() < 0.3,
                              "code": rng.choice(["AccessDenied", "SlowDown", "InternalError", "NoSuchBucket"])} if rng.random() < 0.85 else None,
                       "updisk": {"kind": rng.choice(["enospc", "eio", "short"]), "pos": rng.random(), "frac": 0.5, "sticky": rng.random() < 0.5} if rng.random() < 0.2 else None,
                       "down": {"kind": rng.choice([k for k in kinds if k != "crash"] + ["truncate", "truncate", "drop"]), "pos": rng.random(), "frac": rng.choice([0, 0.2, 0.5, 0.7, 0.95]),
                                "for": rng.choice([1, 1, 3, 40]), "sticky": rng.random() < 0.3, "code": rng.choice(["AccessDenied", "SlowDown", "NoSuchKey"])} if rng.random() < 0.8 else None,
                       "downdisk": {"kind": rng.choice(["enospc", "eio", "short"]), "pos": rng.random(), "frac": 0.5, "sticky": rng.random() < 0.5} if rng.random() < 0.2 else None})
    plan["trials"] = trials
    return plan


def run(plan, ctx):
    import shutil
    import tempfile
    import warnings

    import featuretools as ft
    from sim import escmp, net, seams
    from sim.seams import Clock
    warnings.simplefilter("ignore")
    Clock.start(1600000000)
    root = ctx.scratch()
    tmp = os.path.join(root, "tmp")
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tmp
    for v in ("AWS_PROFILE", "AWS_ACCESS_KEY_ID", "AWS_SECRET_ACCESS_KEY"):
        os.environ.pop(v, None)
    tempfile.tempdir = None
    ds = plan["ds"]
    ds2 = p08.second(plan)
    if not all(e["rows"] for e in ds["entities"] + ds2["entities"]):
        raise util.Invalid("an entity without rows")
    es = {1: storage.build(ds, plan["extras"], plan["marks"]), 2: storage.build(ds2, plan["extras"], plan["marks"][::2])}
    kind, profile = plan["cred"]
    feats = plan["what"] == "features"
    if feats:
        if not plan["specs"] or not plan["specs2"]:
            raise util.Invalid("no features")
        fs = {1: p10.distinct(W.build_features(plan["specs"], es[1])), 2: p10.distinct(W.build_features(plan["specs2"], es[1]))}
        want = {k: p10.whole(v) for k, v in fs.items()}
        if want[1] == want[2]:
            raise util.Invalid("same features")
        uri = "s3://bucket/dir/list.json"
    else:
        want = {k: p08.full(v) for k, v in es.items()}
        uri = "s3://bucket/dir/es.tar"
    store = net.Store(default_credentials=kind != "none", private=plan["private"], segment=plan["segment"], part_size=plan["part"], seed=plan["seed"])
    store.install()
    denied = plan["private"] and kind in ("anonymous", "none")
    expect = {"profile": "profile:%s" % profile, "anonymous": "anonymous", "default": "default", "none": "anonymous"}[kind]
    http = plan["transport"] == "http"
    url = "http://sim/dir/" + ("list.json" if feats else "es.tar")

    def up(k):
        if feats:
            return ft.save_features(fs[k], uri, profile_name=profile)
        return getattr(es[k], "to_" + plan["fmt"])(uri, profile_name=profile)

    def down():
        loc = uri
        if http:
            if ("bucket", uri[12:]) in store.objects:
                store.objects[("http", url)] = store.objects[("bucket", uri[12:])]
            else:
                store.objects.pop(("http", url), None)
            loc = url
        if feats:
            return p10.whole(ft.load_features(loc, profile_name=profile))
        return p08.full(ft.read_entityset(loc, profile_name=profile))

    def call(fn, faults=(), disk=None):
        """-> (value, error info, crashed)"""
        store.reset(faults)
        val = err = None
        crashed = False
        d = seams.Disk(tmp, faults=[disk] if disk else [])
        with d:
            try:
                val = fn()
            except net.Crash:
                crashed = True
            except BaseException as ex:
                err = util.exc_info(ex)
        if d.error:
            raise RuntimeError("harness: " + d.error)
        left = sorted(os.listdir(tmp))
        r = {"val": val, "err": err, "crash": crashed, "fired": list(store.fired), "n": store.n, "disk": [(f["kind"], f["op"]) for f in d.fired], "dn": d.n,
             "left": left, "ids": sorted(set(store.identities) - {"http"})}
        if crashed:
            for x in left:
                p = os.path.join(tmp, x)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        elif any(f["op"] in ("unlink", "rmdir") for f in d.fired):
            for x in left:               # the disk refused to remove them
                shutil.rmtree(os.path.join(tmp, x))
        elif left:
            raise Violation("temporary-files-left", "%s left %r behind" % (fn, left))
        bad = [x for x in r["ids"] if x != expect]
        if bad:
            raise Violation("credentials", "a transfer under %s used %r" % (plan["cred"], bad))
        return r

    def compare(got, k):
        return escmp.diff(want[k], got) if feats else p08.same(want[k], got, plan["fmt"])

    def judge(r, what, allowed, must):
        if r["crash"]:
            return "crashed"
        if r["err"] is not None:
            if must:
                raise Violation("read-fails", "%s: %s" % (what, p08.tail(r["err"])))
            return "failed"
        diffs = {}
        for k in allowed:
            d = compare(r["val"], k)
            if d is None:
                return "new" if k == 2 else "old"
            diffs[k] = d
        raise Violation("mixture", "%s: %s" % (what, diffs or "an object was read that was never uploaded"))

    # --- undisturbed
    probes = {plan["what"]: True, plan["transport"]: True, "multipart": bool(plan["part"]), "segmented": bool(plan["segment"]),
              {"none": "no_credentials"}.get(kind, kind): True, "denied": denied}
    w = call(lambda: up(1))
    if denied:
        if w["err"] is None or store.objects:
            raise Violation("credentials", "an anonymous upload to a private bucket succeeded")
        store.private = False
        w = call(lambda: up(1))
        store.private = True
        if not http:
            r = call(down)
            if r["err"] is None:
                raise Violation("credentials", "an anonymous download from a private bucket succeeded")
        store.private = False
    if w["err"]:
        raise Violation("write-fails", "undisturbed upload: " + p08.tail(w["err"]))
    if set(store.objects) != {("bucket", uri[12:])}:
        raise Violation("write-location", "uploaded objects are %r" % sorted(store.objects))
    nup, ndisk = w["n"], w["dn"]
    r = call(down)
    judge(r, "undisturbed download", {1}, True)
    ndown, ndd = r["n"], r["dn"]
    try:
        ft.save_features(fs[1], url) if feats else es[1].to_csv(url)
        raise Violation("write-url", "writing to a URL did not raise")
    except ValueError:
        pass
    first = dict(store.objects)
    outs = []
    for t in plan["trials"]:
        store.objects = {} if t["first"] else dict(first)
        store.uploads = {}
        old = set() if t["first"] else {1}

        def fault(f, n):
            f = dict(f, at=1 + int(f["pos"] * max(1, n))) if f else None
            if f and f["kind"] == "truncate":
                f.update(sticky=False)
                f["for"] = min(f["for"], 3)       # smart_open asks again for as long as it gets nothing
            return f
        uf, udk = fault(t["up"], nup), fault(t["updisk"], ndisk)
        w = call(lambda: up(2), [uf] if uf else [], udk)
        for f in w["fired"]:
            ctx.hit("fault." + f[0])
            probes[f[0]] = True
        for f in w["disk"]:
            ctx.hit("fault.disk_" + f[0])
            probes["local_disk"] = True
        what = "%s of %s (%s) with %s %s" % ("first upload" if t["first"] else "overwriting upload", plan["what"], plan["fmt"], w["fired"], w["disk"])
        ok = not w["crash"] and w["err"] is None
        if w["err"] is not None and not w["fired"] and not w["disk"]:
            raise Violation("write-fails", "%s: %s" % (what, p08.tail(w["err"])))
        if ok and w["fired"] and w["fired"][0][0] == "connect":
            probes["retried_inside"] = True
        r = call(down)
        # smart_open can complete an upload of which a later part or the abort failed; what it completes then must not read as an object
        aborted = not any(x[1] == "abort" for x in w["fired"]) and (not plan["part"] or store.objects == first)
        out = judge(r, what, {2} if ok else old | {2}, must=ok or bool(old and aborted))
        probes["read_" + out] = True
        if out != "failed":
            df, ddk = fault(t["down"], ndown), fault(t["downdisk"], ndd)
            if ddk and t["downdisk"]["kind"] == "short":
                ddk = None
            now = {"new": 2, "old": 1}[out]
            r = call(down, [df] if df else [], ddk)
            for f in r["fired"]:
                ctx.hit("fault." + f[0])
                probes[f[0]] = True
            for f in r["disk"]:
                ctx.hit("fault.disk_" + f[0])
                probes["local_disk"] = True
            fired = list(r["fired"])
            o2 = judge(r, what + " then a download with %s %s" % (r["fired"], r["disk"]), {now}, must=not r["fired"] and not r["disk"])
            probes["read_" + o2] = True
            r = call(down)
            judge(r, what + " then a repeated download", {now}, must=True)
        else:
            fired, o2 = [], None
        w2 = call(lambda: up(2))
        if w2["err"]:
            raise Violation("write-fails", "%s then repeated: %s" % (what, p08.tail(w2["err"])))
        judge(call(down), what + " then repeated", {2}, must=True)
        outs.append([t["first"], w["fired"], w["disk"], out, fired, o2])
    for name, c in probes.items():
        if c:
            ctx.hit("probe." + name)
    ctx.nontrivial = True
    dg = util.digest([plan["what"], plan["fmt"], plan["transport"], plan["cred"], plan["part"], plan["segment"], outs])
    ctx.sigs.add(dg)
    ctx.event(outs, store.nid)
    ctx.simtime = Clock.now() - 1600000000
    ctx.sample = {"what": plan["what"], "transport": plan["transport"], "credentials": plan["cred"], "outcomes": outs[:3]}
