#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (only for properties whose check exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import P
try:
    from props import NA
except ImportError:
    NA = []
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
have = [p for p in sorted(P, key=lambda p: p["id"]) if os.path.exists(os.path.join(V, "checks", p["id"] + ".py"))]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in have + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 vlib/build.py plain",
     "checks": [{"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in have],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(have), "claimed")
