"""tools/validate_seed.py ID...: check planted bugs in a scratch copy of /repo (applies, demo passes before and fails after, tests pass)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", DASK_DATAFRAME__QUERY_PLANNING="False",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PATH="/opt/venv/bin:" + os.environ["PATH"])
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def demo(sid, repo, work):
    d = os.path.join(work, "demo")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, sid), d, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    quick = "--quick" in sys.argv
    for sid in [a for a in sys.argv[1:] if not a.startswith("-")]:
        work = tempfile.mkdtemp(prefix="ftseed.", dir="/tmp")
        try:
            repo = work + "/repo"
            shutil.copytree("/repo", repo, symlinks=True)
            patch = os.path.join(SEEDED, sid, "patch.diff")
            json.load(open(os.path.join(SEEDED, sid, "meta.json")))
            a = demo(sid, repo, work)
            subprocess.run(["git", "-C", repo, "apply", patch], check=True)
            files = subprocess.run(["git", "-C", repo, "diff", "--name-only"], capture_output=True, text=True).stdout.split()
            assert files and not any("tests" in f for f in files), files
            b = demo(sid, repo, work)
            ok = a[0] == 0 and b[0] != 0
            print(sid, "demo clean", a[0], "patched", b[0], "" if ok else a[1] + "\n---\n" + b[1])
            if quick or not ok:
                continue
            xml = work + "/r.xml"
            subprocess.run([sys.executable if "venv" in sys.executable else "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                            "--timeout=300", "-o", "junit_family=xunit2", "-n", "8", "--dist", "loadfile",
                            "--ignore=featuretools/tests/plugin_tests", "--junitxml=" + xml, "featuretools"],
                           cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True)
            passed = set()
            for tc in ET.parse(xml).getroot().iter("testcase"):
                if not any(c.tag in ("failure", "error", "skipped") for c in tc):
                    passed.add("%s::%s" % (tc.get("classname"), tc.get("name")))
            missing = sorted(s for s in stable if s.split("::")[0] + "::" + s.split("::")[-1] not in passed and s not in passed and "plugin" not in s)
            print(sid, "tests missing:", len(missing), missing[:5], flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main()
