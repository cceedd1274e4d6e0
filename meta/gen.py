#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from meta/props.py (development helper; not used by any check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA  # noqa

lines = []
checks = []
na = []
for p in PROPS:
    over, text = p["over"]
    files, mech = p["files"], p["mech"]
    rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
           "quantifier": {"over": over, "text": text}, "why_tests_cant": p["why"],
           "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    lines.append(json.dumps(rec))
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
    elif os.path.exists(os.path.join(ROOT, "engine/rules", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "no rule built yet for this property"})
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "All checks share one engine: a rustc driver dumps the optimised-off MIR of /repo's crates, and an abstract "
              "interpreter over it decides each property's rule. No hooks in /repo are used."}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(lines), "properties,", len(checks), "checks:", " ".join(c["property"] for c in checks))
