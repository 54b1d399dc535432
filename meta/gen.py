#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, NA

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], []
for p in P:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    elif os.path.exists(os.path.join(root, "engine/checks", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3-vt check.py " + p["id"],
                       "thorough_cmd": "python3-vt check.py " + p["id"], "technique": "static analysis: " + p["technique"],
                       "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
