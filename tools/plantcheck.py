#!/usr/bin/env python3
"""plantcheck.py [ids...]: for each seeded bug: demo passes on the unchanged tree, patch applies, builds, stable tests
pass, demo fails; then (unless --nocheck) run the property's quick check and report whether it catches the bug."""
import json, os, subprocess, sys, glob
V = "/verif"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
nocheck = "--nocheck" in sys.argv; checkonly = "--checkonly" in sys.argv
ids = args or sorted(os.path.basename(d) for d in glob.glob(V + "/seeded/*") if os.path.isdir(d))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def restore(): sh("git -C /repo checkout -- .")
for i in ids:
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); r = []
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip(), "repo dirty"
    try:
        if not checkonly:
            sh("bash /opt/vp/build.sh")
            p = sh(f"bash {d}/demo.sh", cwd="/repo"); r.append("clean-demo " + ("ok" if p.returncode == 0 else "FAIL:" + (p.stdout + p.stderr)[-300:]))
        p = sh(f"git -C /repo apply {d}/patch.diff"); r.append("apply " + ("ok" if p.returncode == 0 else "FAIL " + p.stderr))
        if p.returncode: print(i, r); continue
        if not checkonly:
            b = sh("bash /opt/vp/build.sh"); r.append("build " + ("ok" if b.returncode == 0 else "FAIL " + (b.stdout+b.stderr)[-800:]))
            sh("bash /opt/vp/test.sh /tmp/pc.json"); t = json.load(open("/tmp/pc.json"))
            r.append(f"tests pass={len(t['passed'])} fail={t['failed']}")
            p = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300); r.append("patched-demo " + ("PASSES?!" if p.returncode == 0 else "fails ok: " + (p.stdout + p.stderr).strip()[-120:]))
        if not nocheck:
            p = sh(f"python3 {V}/check.py {meta['property']} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            r.append(f"check rc={p.returncode} {v[:1]}" + ("" if v else (p.stdout + p.stderr)[-300:]))
    finally:
        restore()
    print(i, meta["property"], "|", " | ".join(r), flush=True)
if not checkonly: sh("bash /opt/vp/build.sh")
