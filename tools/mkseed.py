"""tools/mkseed.py SPEC.py: SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text); writes seeded/ID."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(s):
    d = os.path.join(V, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="ftmk.", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD featuretools | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w),
                   shell=True, check=True)
    for f, old, new in s["EDITS"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["ID"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["DEMO"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport DASK_DATAFRAME__QUERY_PLANNING=False PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    subprocess.run(["rm", "-rf", w], check=True)
    print("wrote", d)


def main():
    for p in sys.argv[1:]:
        g = {}
        exec(open(p).read(), g)
        for s in g.get("SEEDS") or [g]:
            make(s)


if __name__ == "__main__":
    main()
