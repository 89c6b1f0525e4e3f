#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
NA = {"P24": "linearisability and deadlock freedom quantify over schedules of several threads; contracts on sequential code cannot express them here, and the lock counters are thread-wide rather than per lock, so no per-lock invariant exists to prove"}
levels = json.load(open(ROOT + "/tools/levels.json"))
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    l = levels.get(i, {})
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                   "technique": l.get("technique", "executable contracts checked on histories (bounded stand-in)"),
                   "level": l.get("level", "exploration"),
                   "level_note": l.get("note", "bounded: seeded random cases on the real code against a reference model; no proof yet")})
m = {"version": 1, "setup_cmd": "python3-vt -m py_compile check.py vp/*.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
