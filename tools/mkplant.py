#!/usr/bin/env python3
"""mkplant.py: reads a python spec on stdin: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=str, demosh=None) and writes /verif/seeded/<id>."""
import sys, os, subprocess, json, shutil
ns = {}; exec(sys.stdin.read(), ns)
for s in ns["PLANTS"]:
    d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.run("git -C /repo status --porcelain -uno", shell=True, capture_output=True, text=True).stdout.strip()
    try:
        for e in s["edits"]:  # (file, old, new[, occurrence (0-based) or -1 for all])
            f, o, n = e[:3]; k = e[3] if len(e) > 3 else None
            p = "/repo/" + f; t = open(p).read(); c = t.count(o)
            assert c == 1 if k is None else c > max(k, 0), (s["id"], f, c)
            if k is None or k < 0: t = t.replace(o, n)
            else:
                parts = t.split(o); t = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:])
            open(p, "w").write(t)
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, capture_output=True)
    open(d + "/patch.diff", "w").write(diff)
    if s.get("demo"): open(d + "/demo.cpp", "w").write(s["demo"])
    if s.get("demosh"): open(d + "/demo.sh", "w").write(s["demosh"])
    else: shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", s["id"], len(diff.splitlines()))
