#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the table of implemented checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
CONSTRUCTIVE = ("constructive generation of valid files with a predicted descriptor (reference oracle), tape shrinking",
  "random exploration: a million (quick) generated files whose whole descriptor must equal the generator's prediction; trusts the generator's model of protobuf (cross-checked against protoc by C21) and prost's equality/encoding")
DONE = {k: CONSTRUCTIVE for k in ["C03", "C04", "C05", "C06", "C07", "C08", "C09"]}
exec(open(os.path.join(ROOT, "tools", "checks.py")).read())
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in DONE:
        t, n = DONE[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet (work in progress)"})
if not m["not_applicable"]: m["not_applicable"] = []
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
