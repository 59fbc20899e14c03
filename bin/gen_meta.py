#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from bin/props.py, so that they stay in step."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from props import PROPS
from targets import TARGETS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in TARGETS
    checks.append({"property": p["id"], "quick_cmd": f"python3 bin/check {p['id']} quick", "thorough_cmd": f"python3 bin/check {p['id']} thorough",
        "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo. All checks are property-based tests over generated inputs, programs or operation histories; see DESIGN.md."},
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties,", len(checks), "checks")
