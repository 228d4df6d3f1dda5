#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
with open(VERIF + "/properties.jsonl", "w") as f:
    for p in sorted(PROPS.values(), key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = p["hook"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks, na = [], []
for p in sorted(PROPS.values(), key=lambda p: p["id"]):
    if p["harness"]:
        checks.append(dict(property=p["id"], quick_cmd=f"python3 lib/check.py {p['id']} --tier quick", thorough_cmd=f"python3 lib/check.py {p['id']} --tier thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"] or p["cov"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
m = dict(version=1, setup_cmd="python3 lib/selftest.py", hooks=dict(guard="OPENCMW_VERIFICATION_THREADPOOL_N_SPIN", enable="harness/threadpool.cpp defines it before including ThreadPool.hpp", source_commits=["2035835"]), checks=checks, not_applicable=na,
         notes="Every check compiles its harnesses against /repo's working tree (header-only library), explores all scenarios in parallel, confirms each violation by replaying the recorded decisions/schedule, and writes evidence/<id>.json. One guarded hook in /repo shortens an idle loop; synchronisation points come from the compiler's thread-sanitizer instrumentation. Replay by hand: python3 lib/check.py --replay <file>.")
json.dump(m, open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

from oracles import O
d = open(VERIF + "/DESIGN.md").read()
a, b = "<!-- per property: begin (generated by lib/gen.py) -->\n", "<!-- per property: end -->\n"
if a in d:
    t = ""
    for p in sorted(PROPS.values(), key=lambda p: p["id"]):
        kinds = sorted({h["kind"] for h in p["harness"]}); src = ", ".join(sorted({"harness/" + h["src"] for h in p["harness"]}))
        eng = " + ".join("mcrt (schedules)" if k == "mc" else "seqrt (inputs/histories)" for k in kinds)
        t += f"**{p['id']} {p['title']}.** Engine: {eng}; {src}. Enumerated: {p['quant']}. Bounds and monitors: {p['cov']}. Oracle: {O[p['id']][0]}. Cost: about {O[p['id']][1]} s quick. Reach beyond the tests: {p['why']}.\n\n"
    d = d[:d.index(a) + len(a)] + "\n" + t + d[d.index(b):]
    open(VERIF + "/DESIGN.md", "w").write(d)
