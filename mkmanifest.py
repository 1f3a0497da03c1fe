#!/usr/bin/env python3
"""Writes MANIFEST.json from engines.CHECKS and properties.jsonl."""
import json, os
from engines import CHECKS
import notes
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": notes.TECH.get(i, "deterministic simulation with fault injection: seeded search over client interleavings and failures against a reference model"),
                       "level": CHECKS[i]["level"], "level_note": notes.NOTE.get(i, notes.DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": notes.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py engines.py && mkdir -p build evidence replays", "checks": checks, "not_applicable": na}
if notes.HOOKS:
    m["hooks"] = notes.HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
