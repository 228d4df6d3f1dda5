#!/usr/bin/env python3
"""addfixed.py REPO BASE: appends 'fixed' entries for fix: commits since BASE to known_findings.json (developer helper, not used by checks)"""
import json, re, subprocess, sys, os
repo, base = sys.argv[1:3]
rules = [("Json", "C27"), ("YAML", "C28"), ("CmwLight: unknown nested", "C30"), ("fields of an unexpected type", "C30"), ("unknown access modifier", "C30"), ("ThreadPool", "C22"),
         ("concurrent|list of staged|searched or counted|last access", "C21"), ("Transactions", "C20")] + [tuple(a.split("=", 1)) for a in sys.argv[3:]]
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
d = json.load(open(p))
for l in subprocess.check_output(["git", "-C", repo, "log", "--reverse", "--format=%h %s", base + "..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or any(h in x for x in d["fixed"]): continue
    pid = next((i for r, i in rules if re.search(r, s)), None)
    assert pid, s
    d["fixed"].append(f"fixed: property={pid} {h} failed before: {s[5:]}")
json.dump(d, open(p, "w"), indent=1)
