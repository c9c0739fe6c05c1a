"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (one source for both)."""

import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import PROPS  # noqa: E402

props, checks = [], []
for p in PROPS:
    pid = p["id"]
    mod = glob.glob(os.path.join(VERIF, "checks", pid.lower() + "_*.py"))
    if not mod:
        print("no check yet:", pid)
        continue
    q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
    assert len(q["title"]) <= 80, (pid, len(q["title"]))
    props.append(q)
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 run_check.py {pid}",
            "thorough_cmd": f"python3 run_check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["level_note"],
        }
    )
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for q in props:
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 run_check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check spawns 8 worker processes that import qrisp from /repo/src, drive the real library with "
    "generated programs and compare what monitors observe with an independent reference semantics (vlib/). "
    "known_findings.json lists genuine defects that were recorded or repaired.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(props), "properties")
