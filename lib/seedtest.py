#!/usr/bin/env python3
"""developer tool: validates planted bugs (builds, stable tests pass, demo discriminates) and runs the property's quick check
usage: seedtest.py [--nobuild] ID...   (ID = directory below seeded/)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
nobuild = "--nobuild" in sys.argv
assert sh("git -C /repo status --porcelain --untracked-files=no").stdout == "", "repo not clean"
for i in ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    out = []
    if not nobuild:
        r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300); out.append(f"demo-clean={r.returncode}")
        if r.returncode: print(r.stdout[-1500:])
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print(i, "PATCH FAILS", r.stdout); continue
        if not nobuild:
            r = sh("bash /opt/vp/build.sh"); out.append(f"build={r.returncode}")
            if r.returncode: print(r.stdout[-1500:])
            r = sh("bash /opt/vp/test.sh /tmp/seed_out.json"); o = json.load(open("/tmp/seed_out.json")); out.append(f"tests={len(o['passed'])}/{len(o['passed'])+len(o['failed'])}")
            r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300); out.append(f"demo-bug={r.returncode}")
        r = sh(f"python3 {V}/lib/check.py {meta['property']} --tier quick"); out.append(f"check={r.returncode}")
        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l or l.startswith("  ")][:2]
        print(i, meta["property"], *out, "CAUGHT" if r.returncode == 1 else "MISSED", "|", " ".join(v)[:300], flush=True)
        if r.returncode == 2: print(r.stdout[-2000:])
    finally:
        sh("git -C /repo checkout -- .")
if not nobuild: sh("bash /opt/vp/build.sh")
