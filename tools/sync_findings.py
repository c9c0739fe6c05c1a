"""Rewrites known_findings.json from the list below (known findings) and the fix: commits in /repo (property given per subject)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = [line.rstrip("\n").split("\t") for line in open(os.path.join(HERE, "fixed.tsv")) if line.strip()]
KNOWN = json.load(open(os.path.join(HERE, "known.json")))

log = subprocess.run(["git", "-C", os.environ.get("REPO", "/repo"), "log", "--format=%h\t%s"], capture_output=True, text=True).stdout
commits = {s: h for h, s in (line.split("\t", 1) for line in log.splitlines())}
out = []
for prop, subject, what in FIXED:
    h = commits[subject]
    out.append({"property": prop, "kind": "fixed", "mech": None, "commit": h, "what": what, "line": f"fixed: property={prop} {h} {what}"})
missing = [s for s in commits if s.startswith("fix:") and s not in {f[1] for f in FIXED}]
for m in missing:
    print("NOT RECORDED:", m)
json.dump({"findings": KNOWN + out}, open(os.path.join(HERE, "..", "known_findings.json"), "w"), indent=1)
print(len(KNOWN), "known,", len(out), "fixed")
