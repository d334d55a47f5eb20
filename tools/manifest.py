#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = "explicit exploration of the real code (bounded exhaustive, stateless), compared with a reference model"
CLAIMED = {}
for l in open(os.path.join(here, "tools/claims.txt")):
    l = l.strip()
    if l and not l.startswith("#"):
        pid, note = l.split(" ", 1); CLAIMED[pid] = note
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks = [{
    "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough", "evidence_file": f"evidence/{i}.json",
    "technique": EXPL, "level": "model_checking", "level_note": CLAIMED[i]} for i in ids if i in CLAIMED]
na = [{"property": i, "reason": "its check is not built yet"} for i in ids if i not in CLAIMED]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "The explorer in harness/ links /repo's crate by path and is rebuilt by every check; no hooks were needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
