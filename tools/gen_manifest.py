"""Writes MANIFEST.json from the check modules and the not-applicable list. Run in /verif."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
NA = {
    "P30": "A pure function of its input series: no schedule, clock, fault, I/O or interleaving takes part, so there is nothing for a simulator to decide. (Primitives are still exercised as workload of P01, P05 and P09 against the reference model.)",
    "P31": "A pure function of the entityset's structure and the options: no schedule, clock, fault or I/O. What does depend on the process, its reproducibility, is P14.",
    "P32": "encode_features and the selection functions are pure functions of a finished matrix: no schedule, clock, fault or I/O.",
    "P33": "databricks.koalas and pyspark are not installed and cannot be fetched, so no Koalas code runs here.",
    "P34": "Pure calendar arithmetic on values: no schedule, clock read, fault or I/O. (The reference model subtracts windows by itself in P05 and P06.)",
}


def main():
    checks = []
    for n in sorted(os.listdir(os.path.join(HERE, "sim", "checks"))):
        if not (n.startswith("p") and n.endswith(".py")):
            continue
        m = importlib.import_module("sim.checks." + n[:-3])
        if getattr(m, "DRAFT", False):
            continue
        pid = m.PROP
        checks.append({
            "property": pid,
            "quick_cmd": "%s -m sim.check %s --tier quick" % (PY, pid),
            "thorough_cmd": "%s -m sim.check %s --tier thorough" % (PY, pid),
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "deterministic simulation: " + m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.NOTE + " Seeded search: a clean run is evidence on the runs made, not proof.",
        })
    man = {
        "version": 1,
        "setup_cmd": "%s -m sim.setup" % PY,
        "hooks": {"guard": "none", "enable": "no hooks were needed in /repo: the clock and disk seam is an LD_PRELOAD library, the "
                  "cluster, object store and entry points are replaced where the code imports them, threads and interrupts are "
                  "driven by sys.monitoring", "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
        "notes": "Replay a violation with: %s -m sim.check <id> --replay <file>" % PY,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print([c["property"] for c in checks])


if __name__ == "__main__":
    main()
