"""Peers: other interpreter processes (different hash seed, address layout, time zone) that have imported
the same code and, like a lane, fork one child per request. A check's run asks them to carry out the same
work and compares the answers."""
import importlib
import json
import os
import subprocess
import sys
import traceback

from sim import util

PEERS = []


def start(prop, environments):
    """Called by a lane before any run. environments: [{"PYTHONHASHSEED":..., "TZ":..., "aslr": bool}]"""
    for e in environments:
        env = dict(os.environ)
        env.update({k: str(v) for k, v in e.items() if k != "aslr"})
        cmd = [sys.executable, "-m", "sim.peer", prop]
        p = subprocess.Popen(cmd, cwd=util.VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        PEERS.append((e, p))
    for e, p in PEERS:
        line = p.stdout.readline()
        if not line or json.loads(line).get("status") != "ready":
            raise RuntimeError("peer %s did not start: %s" % (e, line))


def ask(n, request):
    """-> answer of peer n: ("ok", value) | ("exc", text)"""
    e, p = PEERS[n % len(PEERS)]
    p.stdin.write(json.dumps(request) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError("peer died")
    return json.loads(line)


def serve(check):
    from sim import lane
    for line in sys.stdin:
        req = json.loads(line)
        kind, value = util.in_process(lambda: child(check, req, lane))
        if kind == "exc":
            value = [value[0], value[1], value[2]]
        OUT.write(json.dumps([kind, value], default=str) + "\n")


def child(check, req, lane):
    util.silence()
    import random

    import numpy as np
    random.seed(0)
    np.random.seed(0)
    return json.loads(json.dumps(check.observe(req), default=str))


def main():
    global OUT
    OUT = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    from sim import lane
    try:
        check = importlib.import_module("sim.checks." + sys.argv[1].lower())
        check.IS_PEER = True
        lane._prepare(check)
    except BaseException:
        OUT.write(json.dumps({"status": "import_error", "error": traceback.format_exc()[-3000:]}) + "\n")
        return
    OUT.write(json.dumps({"status": "ready"}) + "\n")
    serve(check)


if __name__ == "__main__":
    main()
