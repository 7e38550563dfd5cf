#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
seen = set()
out, checks, na = [], [], []
for p in sorted(PROPS, key=lambda p: int(p["id"][1:])):
    assert p["id"] not in seen, p["id"]
    seen.add(p["id"])
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    out.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["tests"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
    })
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    cmd = "./check.sh " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks: the checks read the source of /repo as it is. The analyser is in tool/; findings/run.sh shows the genuine defects which were repaired."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(out), "properties,", len(checks), "claimed")
