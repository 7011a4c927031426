#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
import props

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant",
                                 "anchors")}
        assert len(rec["title"]) <= 80, (p["id"], len(rec["title"]))
        f.write(json.dumps(rec) + "\n")
checks, na = [], []
for p in props.PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 -m sa.check %s --tier quick" % p["id"],
        "thorough_cmd": "python3 -m sa.check %s --tier thorough" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 -m sa.selfcheck",
           "checks": checks, "not_applicable": na,
           "notes": "All checks read /repo's current source on each run with the stdlib ast "
                    "module only; nothing of chainladder is imported or executed. No hooks."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
