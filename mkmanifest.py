"""Write MANIFEST.json from the check modules that exist (run by hand)."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
CMD = "/opt/venv/bin/python run_check.py %s"

checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    path = os.path.join(HERE, "gpverif", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "no check has been built for it yet"})
        continue
    src = open(path).read()
    doc = src.split('"""')[1].strip().replace("\n", " ")
    checks.append(
        {
            "property": pid,
            "quick_cmd": CMD % pid,
            "thorough_cmd": CMD % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "runtime monitors and reference oracles over generated executions of the real code",
            "level": "exploration",
            "level_note": doc
            + " Assurance: no violation on the executions of this run (seeded random and hostile"
            " workloads on both backends); trusts NumPy/SciPy/PyTorch and the harness reference models.",
        }
    )
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python run_check.py --selftest",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: all monitors are attached from the harness process (wrapped callables, recorded events).",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
