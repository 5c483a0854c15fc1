#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
checks, na = [], []
for q in P:
    if q["technique"] is None:
        na.append({"property": q["id"], "reason": q["note"]})
    else:
        c = "python3 sa/run.py %s --tier " % q["id"]
        checks.append({"property": q["id"], "quick_cmd": c + "quick", "thorough_cmd": c + "thorough",
                       "technique": "static analysis: " + q["technique"], "level": "other", "level_note": q["note"]})
json.dump({"version": 1, "setup_cmd": "python3 sa/front.py", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
