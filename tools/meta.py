#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mechanism, observe, claim=None, na=None):
    """claim = (technique, level, note); na = reason"""
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [], "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None}})
    if claim:
        t, level, note = claim
        CHECKS.append({"property": id, "quick_cmd": "./check.sh " + id, "thorough_cmd": "./check.sh " + id,
            "evidence_file": "evidence/%s.json" % id, "technique": t, "level": level, "level_note": note})
    else:
        NA.append({"property": id, "reason": na})

exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": sorted(CHECKS, key=lambda c: c["property"]),
     "not_applicable": sorted(NA, key=lambda c: c["property"]),
     "notes": "One Go program, tools/uipcheck, holds every analysis; check.sh builds it and runs one property on /repo's working tree. No hooks in /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(CHECKS), "checks")
