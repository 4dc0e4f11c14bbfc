#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from checks/props.py (single source)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in props.PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 /verif/checks/run.py %s --quick" % p["id"],
                            "thorough_cmd": "python3 /verif/checks/run.py %s --thorough" % p["id"],
                            "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
