"""Runner: python -m sim.check P01 [--tier quick|thorough] [--seed N] [--runs N] [--replay FILE]

Run i is executed by lane i mod 8; a lane's hash seed is fixed by its number, so the outcome of
run i depends on (seed, i) and the code alone, not on how many lanes work at once.
"""
import argparse
import fcntl
import importlib
import json
import os
import subprocess
import sys
import threading
import time

from sim import util

VERIF = util.VERIF
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
LANES = 8
HASHSEEDS = [0, 1, 7, 42, 1234, 99991, 271828, 4000000000]


def build():
    so = os.path.join(VERIF, "build", "libftsim.so")
    src = os.path.join(VERIF, "sim", "shim.c")
    os.makedirs(os.path.dirname(so), exist_ok=True)
    with open(so + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-o", so + ".tmp", src, "-ldl"], check=True)
            os.rename(so + ".tmp", so)
    return so


def lane_env(lane, so):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("AWS_", "FEATURETOOLS_"))}
    env.update({
        "PYTHONHASHSEED": str(HASHSEEDS[lane % len(HASHSEEDS)]), "PYTHONDONTWRITEBYTECODE": "1",
        "DASK_DATAFRAME__QUERY_PLANNING": "False", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "TZ": "UTC", "LANG": "C.UTF-8", "PYTHONPATH": VERIF, "HOME": os.environ.get("HOME", "/root"),
        "AWS_EC2_METADATA_DISABLED": "true", "ARROW_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore",
        "LD_PRELOAD": so, "MALLOC_ARENA_MAX": "2",
    })
    return env


NOASLR = None


def launcher():
    """Prefix that switches address randomisation off, where permitted."""
    global NOASLR
    if NOASLR is None:
        NOASLR = []
        try:
            r = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                NOASLR = ["setarch", "-R"]
        except OSError:
            pass
    return NOASLR


class Lane:
    def __init__(self, prop, n, so):
        self.n = n
        self.prop = prop
        self.so = so
        self.start()

    def start(self):
        self.p = subprocess.Popen(launcher() + [PY, "-m", "sim.lane", self.prop], cwd=VERIF, env=lane_env(self.n, self.so),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get("FTSIM_DEBUG") else subprocess.DEVNULL, text=True)
        self.ready = None

    def wait_ready(self):
        if self.ready is None:
            line = self.p.stdout.readline()
            self.ready = json.loads(line) if line else {"status": "import_error", "error": "lane process died"}
        return self.ready["status"] == "ready"

    def run(self, i, seed, plan=None, timeout=60, debug=False):
        self.p.stdin.write(json.dumps({"i": i, "seed": seed, "plan": plan, "timeout": timeout, "debug": debug}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"i": i, "status": "died", "error": "lane process died"}
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


# ------------------------------------------------------------------ known findings
def load_findings(prop):
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status", "known") == "known":
                    out.append(d)
    return out


def matches(finding, viol):
    return viol.get("sig") is not None and viol["sig"] == finding.get("sig")


# ------------------------------------------------------------------ minimisation
def get_path(plan, path):
    """path like 'ds.entities.*.rows' -> list of (container, key) of lists."""
    cur = [(None, None, plan)]
    for part in path.split("."):
        nxt = []
        for _, _, o in cur:
            if part == "*":
                if isinstance(o, list):
                    nxt += [(o, k, v) for k, v in enumerate(o)]
                elif isinstance(o, dict):
                    nxt += [(o, k, v) for k, v in sorted(o.items())]
            elif isinstance(o, dict) and part in o:
                nxt.append((o, part, o[part]))
        cur = nxt
    return [(c, k) for c, k, v in cur if isinstance(v, list)]


def generic_candidates(plan, paths):
    for path in paths:
        n = len(get_path(plan, path))
        for t in range(n):
            size = None
            lst = get_path(plan, path)[t]
            L = len(lst[0][lst[1]])
            size = max(1, L // 2)
            while size >= 1 and L:
                start = 0
                while start < L:
                    c = json.loads(json.dumps(plan))
                    tgt = get_path(c, path)
                    if t >= len(tgt):
                        break
                    arr = tgt[t][0][tgt[t][1]]
                    if start >= len(arr):
                        break
                    del arr[start:start + size]
                    yield c
                    start += size
                if size == 1:
                    break
                size = max(1, size // 2)


def minimise(check, lane, i, seed, plan, cls, budget, timeout):
    end = time.monotonic() + budget
    tried = 0
    best = plan
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        gens = []
        if hasattr(check, "shrink"):
            gens.append(check.shrink(json.loads(json.dumps(best))))
        gens.append(generic_candidates(best, getattr(check, "SHRINK", [])))
        for g in gens:
            for cand in g:
                if time.monotonic() > end:
                    break
                cand = json.loads(json.dumps(cand))
                if len(json.dumps(cand)) >= len(json.dumps(best)):
                    continue
                tried += 1
                r = lane.run(i, seed, cand, timeout)
                if r.get("status") == "ok" and r.get("violation") and r["violation"]["class"] == cls:
                    best = cand
                    improved = True
                    break
            if improved:
                break
    return best, tried


# ------------------------------------------------------------------ main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--lanes", type=int, default=LANES)
    ap.add_argument("--replay")
    ap.add_argument("--one", type=int)
    ap.add_argument("--digests")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    tier = "thorough" if a.tier == "thorough" else "quick"
    check = importlib.import_module("sim.checks." + prop.lower())
    so = build()
    t0 = time.monotonic()

    if a.replay:
        rec = json.load(open(a.replay))
        lane = Lane(prop, rec["lane"], so)
        if not lane.wait_ready():
            print("HARNESS-ERROR: " + lane.ready["error"])
            return 2
        r = lane.run(rec["i"], rec["seed"], rec["plan"], timeout=240, debug=True)
        lane.close()
        if r.get("status") == "timeout":
            r = {"status": "ok", "violation": {"class": "hang", "detail": r["error"]}, "digest": None}
        if r.get("status") == "ok" and r.get("violation"):
            v = r["violation"]
            exact = v["class"] == rec["class"] and (rec.get("digest") in (None, r.get("digest")))
            print("replayed: class=%s exact=%s" % (v["class"], exact))
            print("detail: %s" % v["detail"])
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        print("replay: no violation (%s) %s" % (r.get("status"), r.get("error", "")))
        return 0 if r.get("status") == "ok" else 2

    if a.one is not None:
        lane = Lane(prop, a.one % LANES, so)
        if not lane.wait_ready():
            print(lane.ready["error"])
            return 2
        r = lane.run(a.one, a.seed, None, timeout=600, debug=True)
        lane.close()
        ev = r.pop("events", None)
        print(json.dumps(r, indent=1)[:20000])
        if os.environ.get("FTSIM_EVENTS"):
            for e in ev or []:
                print(e)
        return 0

    budget = getattr(check, "WALL", {"quick": 420, "thorough": 6 * 3600})[tier]
    total = a.runs or check.RUNS[tier]
    timeout = getattr(check, "RUN_TIMEOUT", 60)
    lanes = [Lane(prop, n, so) for n in range(LANES)]
    sem = threading.Semaphore(a.lanes)
    results, lock, stop = {}, threading.Lock(), threading.Event()
    errors = []
    findings = load_findings(prop)
    known_hits = {}
    viol_runs = {}

    def is_known(v):
        for f in findings:
            if matches(f, v):
                return f
        return None

    def work(lane):
        with sem:
            if not lane.wait_ready():
                with lock:
                    errors.append("lane %d could not import the code under test: %s" % (lane.n, lane.ready.get("error")))
                stop.set()
                return
            for i in range(lane.n, total, LANES):
                if stop.is_set() or time.monotonic() - t0 > budget:
                    return
                r = lane.run(i, a.seed, None, timeout)
                if r["status"] in ("timeout", "died"):
                    if r["status"] == "died" and lane.p.poll() is not None:
                        lane.start()
                        lane.wait_ready()
                    r2 = lane.run(i, a.seed, None, timeout * 3)
                    if r2["status"] == "timeout":
                        r2 = {"i": i, "status": "ok", "violation": {"class": "hang", "sig": None, "detail": "the run does not end (twice)"},
                              "stats": {}, "sig": [], "nontrivial": True, "simtime": 0, "digest": None, "plan": None}
                    elif r2["status"] == "died":
                        r2 = {"i": i, "status": "ok", "violation": {"class": "process-death", "sig": None, "detail": "the run process dies: " + r2["error"]},
                              "stats": {}, "sig": [], "nontrivial": True, "simtime": 0, "digest": None, "plan": None}
                    r = r2
                with lock:
                    results[i] = r
                    if r["status"] in ("harness_error", "invalid"):
                        errors.append("run %d: %s" % (i, r.get("error")))
                        if len(errors) > 20 and not a.keep_going:
                            stop.set()
                    elif r.get("violation"):
                        f = is_known(r["violation"])
                        if f is not None:
                            known_hits[f["sig"]] = known_hits.get(f["sig"], 0) + 1
                        else:
                            viol_runs[i] = r
                            if not a.keep_going:
                                stop.set()

    threads = [threading.Thread(target=work, args=(ln,)) for ln in lanes]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    rc = 0
    out_lines = []
    for f in findings:
        out_lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if a.keep_going and viol_runs:
        for i in sorted(viol_runs):
            v = viol_runs[i]["violation"]
            print("viol run %d class=%s sig=%s detail=%s" % (i, v["class"], v.get("sig"), v["detail"][:300].replace("\n", " | ")))
    if a.keep_going:
        print("runs done: %d, violations: %d, errors: %d" % (len(results), len(viol_runs), len(errors)))
        for e in errors[:5]:
            print("ERR " + str(e)[-1500:])
        from collections import Counter
        print(Counter(r["violation"]["class"] for r in viol_runs.values()))
    replay_path = None
    if viol_runs and not a.no_minimise:
        i = min(viol_runs)
        r = viol_runs[i]
        v = r["violation"]
        plan = r.get("plan")
        if plan is None:
            check_plan = None
            try:
                check_plan = check.gen(util.rng_for(a.seed, check.PROP, i), i)
                check_plan["_i"] = i
            except Exception:
                pass
            plan = check_plan
        tried = 0
        lane = lanes[i % LANES]
        orig = len(json.dumps(plan))
        if v["class"] not in ("hang", "process-death") and plan is not None:
            try:
                plan, tried = minimise(check, lane, i, a.seed, plan, v["class"],
                                       getattr(check, "SHRINK_S", {"quick": 45, "thorough": 300})[tier], timeout)
            except Exception as e:
                # the violation stands, with the schedule as it was generated
                print("not minimised: %r" % (e,))
        fresh = Lane(prop, i % LANES, so)
        confirmed = None
        if fresh.wait_ready() and plan is not None:
            rr = fresh.run(i, a.seed, plan, timeout * 3, debug=True)
            if rr.get("violation"):
                confirmed = rr["violation"]["class"] == v["class"]
                v = rr["violation"]
                r = rr
        fresh.close()
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replays", "%s-s%d-r%d.json" % (prop, a.seed, i))
        with open(replay_path, "w") as f:
            json.dump({"property": prop, "seed": a.seed, "i": i, "lane": i % LANES,
                       "hashseed": HASHSEEDS[i % LANES], "class": v["class"], "detail": v["detail"],
                       "digest": r.get("digest"), "plan": plan,
                       "shrunk": {"from_bytes": orig, "to_bytes": len(json.dumps(plan)), "tried": tried},
                       "confirmed_in_fresh_process": confirmed,
                       "trace": (r.get("events") or [])[:400]}, f, indent=1, default=str)
        out_lines.append("violation class: %s (run %d, %d candidates tried while minimising, reproduced in a fresh process: %s)"
                         % (v["class"], i, tried, confirmed))
        out_lines.append("detail: " + v["detail"][:1500])
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, replay_path))
        rc = 1
    for ln in lanes:
        ln.close()
    wall = time.monotonic() - t0
    done = {i: r for i, r in results.items() if r["status"] == "ok"}
    if a.digests:
        with open(a.digests, "w") as f:
            json.dump({str(i): r.get("digest") for i, r in sorted(done.items())}, f)

    stats, sigs, simtime, nontriv, samples = {}, set(), 0.0, 0, []
    for i in sorted(done):
        r = done[i]
        for k, n in (r.get("stats") or {}).items():
            stats[k] = stats.get(k, 0) + n
        if r.get("nontrivial"):
            nontriv += 1
            sigs.update(r.get("sig") or [])
        simtime += r.get("simtime") or 0
        if r.get("sample") is not None and len(samples) < 4:
            samples.append({"run": i, "case": r["sample"]})
    cov = {
        "evaluations": len(done),
        "distinct_nontrivial": len(sigs),
        "rule": check.RULE,
        "samples": samples or ["none"],
        "nontrivial_runs": nontriv,
        "runs_planned": total,
        "runs_per_hour": round(len(done) / wall * 3600) if wall else 0,
        "seeds_per_hour": round(len(done) / wall * 3600) if wall else 0,
        "seed_scheme": "one VERIF_SEED and the run number i determine run i completely; every run has its own derived seed",
        "simulated_seconds": round(simtime, 3),
        "faults_fired": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault.")},
        "probes_hit": {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("probe.")},
        "probes_never_hit": sorted(p for p in getattr(check, "PROBES", []) if not stats.get("probe." + p)),
        "other_counts": {k: n for k, n in sorted(stats.items()) if not k.startswith(("fault.", "probe."))},
        "distinct_measure": getattr(check, "MEASURE", "distinct run signatures"),
        "real_components": getattr(check, "REAL", []),
        "stub_components": getattr(check, "STUB", []),
        "known_finding_hits": known_hits,
        "lanes": a.lanes, "hash_seeds": HASHSEEDS, "address_randomisation_off": bool(launcher()),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": a.seed, "level": check.LEVEL, "coverage": cov,
                       "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
                       "violations": len(viol_runs)}, f, indent=1)
    for line in out_lines:
        print(line)
    if rc == 0:
        if errors:
            for e in errors[:3]:
                print("HARNESS-ERROR: " + str(e))
            return 2
        if len(done) < total * 0.4:
            print("HARNESS-ERROR: only %d of %d runs done within %ds" % (len(done), total, budget))
            return 2
        print("%s held on %d runs (%d distinct non-trivial), %.0fs, %d simulated s" % (prop, len(done), len(sigs), wall, simtime))
    return rc


if __name__ == "__main__":
    sys.exit(main())
