"""tools/mutate.py OUT SEED MINUTES [JOBS]: look for small changes to featuretools that the existing tests do not notice.

Each mutant is made in a scratch copy and given to the stable tests; the survivors are written to OUT as patches. A development
tool for finding weak checks (then: tools/mutant.sh OUT/x.diff PXX); no check uses it."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import warnings

DIRS = {"computational_backends": 5, "entityset": 6, "feature_base": 3, "synthesis": 1, "utils": 2}
FILES = {"primitives/options_utils.py": .3, "primitives/utils.py": .5, "primitives/base/aggregation_primitive_base.py": .3, "primitives/base/primitive_base.py": .5,
         "primitives/api.py": 0, "variable_types/variable.py": .7, "__init__.py": .7, "primitives/base/transform_primitive_base.py": .3}
SKIP = {"gen_utils.py": .3, "api.py": 0, "__init__.py": 0, "plot_utils.py": 0, "encode_features.py": 0, "feature_descriptions.py": .2, "timedelta.py": .4, "dfs.py": .5}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", DASK_DATAFRAME__QUERY_PLANNING="False",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PATH="/opt/venv/bin:" + os.environ["PATH"])


def seg(src, lines, n):
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x))
    conv = lambda ln, col: off[ln - 1] + len(lines[ln - 1].encode()[:col].decode())
    return conv(n.lineno, n.col_offset), conv(n.end_lineno, n.end_col_offset)


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    out = []

    def put(n, text, what):
        a, b = seg(src, lines, n)
        out.append((a, b, text, what, n.lineno))
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = ast.get_source_segment(src, n.left), ast.get_source_segment(src, n.comparators[0])
            put(n, "%s %s %s" % (l, CMP[type(n.ops[0])], r), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            vals = [ast.get_source_segment(src, v) for v in n.values]
            put(n, "(" + op.join("(%s)" % v for v in vals) + ")", "boolop")
            for k in range(len(vals)):
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % v for j, v in enumerate(vals) if j != k) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(" + ast.get_source_segment(src, n.operand) + ")", "drop not")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
            put(n.test, "(not (%s))" % ast.get_source_segment(src, n.test), "negate")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "drop call")
        elif isinstance(n, (ast.Assign, ast.AugAssign)):
            t = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(n, ast.AugAssign):
                put(n, "pass", "drop assignment")
            elif isinstance(n.value, ast.Call) and any(isinstance(m, ast.Name) and m.id == getattr(t, "id", None) for m in ast.walk(n.value)):
                put(n, "pass", "drop reassignment")
        elif isinstance(n, (ast.Continue, ast.Break)):
            put(n, "pass", "drop " + type(n).__name__)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    a, b = seg(src, lines, n)
                    ka, kb = seg(src, lines, k)
                    t = src[a:b]
                    t = t[:ka - a].rstrip() + t[kb - a:]
                    t = re.sub(r",\s*,", ",", re.sub(r"\(\s*,", "(", t))
                    t = re.sub(r",?\s*\)$", ")", t)
                    out.append((a, b, t, "drop keyword " + k.arg, n.lineno))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "dropna", "drop_duplicates", "sort_values", "sort_index", "astype", "reset_index") and len(n.args) < 3:
                put(n, ast.get_source_segment(src, n.func.value), "drop ." + n.func.attr)
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set") and len(n.args) == 1:
                put(n, ast.get_source_segment(src, n.args[0]), "drop " + n.func.id)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "flip constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and n.value in (0, 1, 2):
            put(n, str(n.value + 1), "constant")
    good = []
    for a, b, text, what, line in out:
        new = src[:a] + text + src[b:]
        if new != src:
            try:
                compile(new, path, "exec")
            except SyntaxError:
                continue
            good.append((new, what, line))
    return good


def main():
    warnings.simplefilter("ignore")
    out, seed, minutes = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    jobs = int(sys.argv[4]) if len(sys.argv) > 4 else 2
    os.makedirs(out, exist_ok=True)
    rng = random.Random(seed)
    pool = []
    base = "/repo/featuretools/"
    for d, w in DIRS.items():
        for f in sorted(os.listdir(base + d)):
            if f.endswith(".py") and SKIP.get(f, 1):
                pool.append((d + "/" + f, w * SKIP.get(f, 1)))
    pool += [x for x in FILES.items() if x[1]]
    pool = [(f, w * os.path.getsize(base + f) ** 0.7) for f, w in pool]
    made = {f: mutants(base + f) for f, _ in pool}
    print("mutants:", sum(map(len, made.values())))
    end = time.time() + minutes * 60
    lock = threading.Lock()
    stats = {"killed": 0, "survived": 0}
    seen = set()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    want = {s.split("::")[0] + "::" + s.split("::")[-1] for s in stable if "plugin" not in s}

    def work(k):
        d = tempfile.mkdtemp(prefix="ftmt.", dir="/tmp")
        repo = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        conf = d + "/only_stable.py"
        with open(d + "/stable.json", "w") as f:
            json.dump(sorted(want), f)
        with open(conf, "w") as f:
            f.write("import json\nW = set(json.load(open(%r)))\ndef pytest_collection_modifyitems(items):\n    items[:] = [i for i in items if '%%s::%%s' %% "
                    "('.'.join(i.nodeid.split('::')[0][:-3].split('/') + i.nodeid.split('::')[1:-1]), i.name) in W]\n" % (d + "/stable.json"))
        while time.time() < end:
            with lock:
                while True:
                    f = rng.choices([x for x, _ in pool], [w for _, w in pool])[0]
                    if made[f]:
                        j = rng.randrange(len(made[f]))
                        if (f, j) not in seen:
                            seen.add((f, j))
                            break
            new, what, line = made[f][j]
            with open(repo + "/featuretools/" + f, "w") as h:
                h.write(new)
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "only_stable", "--timeout=120", "-n", "3",
                                    "--ignore=featuretools/tests/plugin_tests", "featuretools"], cwd=repo, env=dict(ENV, PYTHONPATH=repo + ":" + d),
                                   capture_output=True, text=True, timeout=900)
                ok = r.returncode == 0
                n = re.search(r"(\d+) passed", r.stdout)
                ok = ok and n and int(n.group(1)) >= len(want) - 5
                if r.returncode == 0 and not ok:
                    print("odd:", r.stdout[-200:], len(want))
            except subprocess.TimeoutExpired:
                ok = False
            if ok:
                diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
                name = "%s-%d-%s" % (f.replace("/", "_")[:-3], line, what.replace(" ", "_"))
                with open(os.path.join(out, "%s-%d.diff" % (name, j)), "w") as h:
                    h.write(diff)
                print("survived", f, line, what, flush=True)
            stats["survived" if ok else "killed"] += 1
            subprocess.run(["git", "-C", repo, "checkout", "-q", "."], check=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(stats)


if __name__ == "__main__":
    main()
