"""Writes DESIGN.md from the property list, the plans in the check modules, the planted changes and the findings file."""

import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import PROPS  # noqa: E402


def read(name):
    p = os.path.join(HERE, name)
    return open(p).read() if os.path.exists(p) else ""


def load(name, default):
    p = os.path.join(HERE, name)
    return json.load(open(p)) if os.path.exists(p) else default


out = [read("design_head.md"), "## Properties\n"]
caught = load("caught.json", {})
for p in PROPS:
    mod = glob.glob(os.path.join(VERIF, "checks", p["id"].lower() + "_*.py"))
    if not mod:
        continue
    ns = {}
    exec(open(mod[0]).read().split("# --- end of plan ---")[0], ns)
    plan = ns["PLAN"]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Monitor and oracle.* {p['technique'][0].upper() + p['technique'][1:]}.")
    out.append(f"*Evaluation rule.* {ns['RULE']}.")
    out.append("*Generated programs (cases per family, quick / thorough).* " + ", ".join(f"{k} {v}/{plan['thorough'].get(k, '-')}" for k, v in plan["quick"].items()) + ".")
    out.append(f"*Bounds.* {p['level_note']}.")
    if ns.get("ASSUMPTIONS"):
        out.append("*Assumptions.* " + "; ".join(ns["ASSUMPTIONS"]) + ".")
    out.append(f"*Reaches what tests cannot because* {p['why_tests_cant']}.")
    if p.get("design"):
        out.append(p["design"])
    out.append("")
out.append("## Planted changes\n")
out.append("Each was written from the property text and the code, confirmed to pass the existing stable tests, and is kept whether or not it is caught.\n")
out.append("| id | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    b = os.path.basename(d)
    out.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(b, m['property'])} |")
out.append("")
kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
out.append("## Genuine defects found on the pinned commit\n")
fixed = [k for k in kf["findings"] if k["kind"] == "fixed"]
known = [k for k in kf["findings"] if k["kind"] != "fixed"]
out.append(f"{len(fixed)} defects were repaired by `fix:` commits and {len(known)} are recorded as known findings; `known_findings.json` lists them all.\n")
for k in known:
    out.append(f"* known, {k['property']} (`{k['mech']}`): {k['what']}")
out.append("")
out.append(read("design_tail.md"))
with open(os.path.join(VERIF, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print("DESIGN.md", sum(len(x) for x in out), "chars")
