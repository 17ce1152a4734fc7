#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from spec/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "spec"))
sys.dont_write_bytecode = True
from props import PROPS, NA
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in NA]}
for p in PROPS:
    m["checks"].append({"property": p["id"],
                        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
