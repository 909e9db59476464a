#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and bin/checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(root, "bin")]
from properties import P
import checks

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

man = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for p in P:
    c = checks.CHECKS.get(p["id"])
    if c is None:
        man["not_applicable"].append({"property": p["id"], "reason": checks.NOT_CLAIMED.get(p["id"], "no check built yet (work in progress)")})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": f"python3 bin/check.py {p['id']} quick",
        "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c["technique"], "level": c["level"], "level_note": c["note"],
    })
if checks.HOOKS:
    man["hooks"] = checks.HOOKS
man["notes"] = checks.NOTES
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
