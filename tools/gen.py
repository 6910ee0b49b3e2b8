#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from props import P
V = os.path.dirname(D)
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if not os.path.exists(V + "/checks/%s.cpp" % p["id"]):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "technique": "bounded exhaustive stateless exploration of the real code against a reference model",
        "level": "model_checking", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 run.py --prebuild", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the checks compile /repo's sources and headers as they are. See DESIGN.md."},
    open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
