#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H); sys.dont_write_bytecode = True
from props import PROPS, NA
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        o.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in PROPS:
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                        "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                        "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
