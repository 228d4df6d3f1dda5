#!/usr/bin/env python3
"""Builds the harnesses of one property from /repo's current tree, explores all their scenarios, confirms every
violation by replaying it, writes evidence/<id>.json.   usage: check.py <property> [--tier quick|thorough]
                                                               check.py --replay <file>"""
import concurrent.futures as cf, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "g++-14"
INCS = ["src/core/include", "src/disruptor/include", "src/serialiser/include", "src/majordomo/include",
        "src/zmq/include", "src/client/include", "src/services/include", "src/rest/include", "3rd_party", "3rd_party/kainjow"]
NCPU = os.cpu_count() or 8


class Broken(Exception):
    pass


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


def harness_cmds(h, bdir):
    """compile commands (parallel) and link command of a harness"""
    kind = h["kind"]
    srcs = [os.path.join(VERIF, "harness", s) for s in ([h["src"]] + h.get("extra", []))]
    inc = ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")] + ["-I" + os.path.join(REPO, i) for i in INCS] + h.get("flags", [])
    base = [CXX, "-std=c++23", "-g", "-w", "-fno-omit-frame-pointer"]
    comp, objs = [], []
    tag = os.path.splitext(h["src"])[0]
    for i, s in enumerate(srcs):
        o = os.path.join(bdir, f"{tag}_{i}.o")
        objs.append(o)
        if kind == "mc":
            comp.append(base + ["-O1", "-fsanitize=thread", "-I" + os.path.join(VERIF, "mcrt")] + inc + ["-c", s, "-o", o])
        else:
            san = h.get("san", ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"])
            comp.append(base + ["-O1"] + san + ["-I" + os.path.join(VERIF, "seqrt")] + inc + ["-c", s, "-o", o])
    rt = os.path.join(bdir, ("mcrt" if kind == "mc" else "seqrt") + f"_{tag}.o")
    exe = os.path.join(bdir, tag)
    if kind == "mc":
        comp.append(base + ["-O2", "-I" + os.path.join(VERIF, "mcrt"), "-c", os.path.join(VERIF, "mcrt/mcrt.cpp"), "-o", rt])
        link = [CXX] + objs + [rt, "-no-pie", "-static-libstdc++", "-static-libgcc", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-pthread"] + h.get("ldflags", []) + ["-o", exe]
    else:
        san = h.get("san", ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"])
        comp.append(base + ["-O2", "-I" + os.path.join(VERIF, "seqrt"), "-c", os.path.join(VERIF, "seqrt/seqrt.cpp"), "-o", rt])
        link = [CXX] + san + objs + [rt, "-pthread"] + h.get("ldflags", []) + ["-o", exe]
    return comp, link, exe


def build(hs, bdir):
    os.makedirs(bdir, exist_ok=True)
    exes = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        jobs = []
        for h in hs:
            comp, link, exe = harness_cmds(h, bdir)
            exes[h["src"]] = exe
            jobs.append(([ex.submit(run, c) for c in comp], comp, link))
        for futs, comp, link in jobs:
            for f, c in zip(futs, comp):
                r = f.result()
                if r.returncode:
                    raise Broken("harness does not compile against the current tree: " + " ".join(c) + "\n" + r.stderr[:4000])
            r = run(link)
            if r.returncode:
                raise Broken("harness does not link: " + r.stderr[:3000])
    return exes


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", LC_ALL="C")


def harness_env(h):
    # the fake stack of use-after-return detection leaks frames when exceptions are thrown and becomes very slow
    return ENV if h.get("suar", True) else dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"].replace("use_after_return=1", "use_after_return=0"))


def addr2line(exe, msg):
    for m in sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", msg))):
        r = run(["addr2line", "-Cfise", exe, m])
        lines = r.stdout.split("\n")
        loc = [lines[i + 1] for i in range(0, len(lines) - 1, 2)]
        msg = msg.replace("pc=" + m, "at " + " < ".join(loc[:4]))
    return msg


def scen_run(h, exe, scen, tier, part, wdir, known, budget):
    """returns a dict: result of one scenario (or one part of it)"""
    tagp = f"{scen}.{part[0]}of{part[1]}"
    out = os.path.join(wdir, tagp + ".json")
    cmd = [exe, "--only", scen, "--tier", tier, "--out", out, "--max-seconds", str(budget)]
    if h["kind"] == "mc":
        cmd += ["--replay-dir", wdir]
    else:
        prog = os.path.join(wdir, tagp + ".progress")
        cmd += ["--progress", prog, "--part", f"{part[0]}/{part[1]}", "--known", ",".join(known)]
    cwd = os.path.join(wdir, tagp + ".cwd")
    os.makedirs(cwd, exist_ok=True)
    try:
        r = run(cmd, timeout=budget + 120, env=harness_env(h), cwd=cwd)
    except subprocess.TimeoutExpired:
        return dict(scenario=scen, error="scenario exceeded its time limit without an answer")
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
            if isinstance(res, list):
                res = res[0]
        except Exception:
            res = None
    if r.returncode == 0 and res is not None:
        return res
    replay = os.path.join(wdir, tagp + ".replay")
    if h["kind"] == "mc":
        src = os.path.join(wdir, scen + ".replay")
        if r.returncode != 1 or res is None or not os.path.exists(src):
            return dict(scenario=scen, error=f"exploration failed (exit {r.returncode}): {r.stdout[-500:]} {r.stderr[-1500:]}")
        body = open(src).read()
        msg = addr2line(exe, res["violation"])
    else:
        if r.returncode in (97, 98):
            return dict(scenario=scen, error=f"exploration failed (exit {r.returncode}): {r.stderr[-1500:]}")
        if r.returncode == 1 and res is not None:
            ch = [l for l in r.stdout.split("\n") if l.startswith("choices")]
            body = f"scenario {scen}\ntier {tier}\n{ch[0] if ch else 'choices'}\n"
            msg = res["violation"]
        else:  # crash, sanitizer report or hang: decisions are in the progress file
            b = open(prog, "rb").read()
            n = struct.unpack_from("<H", b, 0)[0]
            ch = " ".join("%d/%d" % struct.unpack_from("<HH", b, 4 * k) for k in range(1, n + 1))
            body = f"scenario {scen}\ntier {tier}\nchoices {ch}\n"
            m = re.search(r"(SUMMARY: .*|.*runtime error: .*|HANG.*|terminate called.*(\n.*)?)", r.stderr)
            msg = "crash: " + (m.group(1) if m else f"exit status {r.returncode}")
    with open(replay, "w") as f:
        f.write(f"harness {h['src']}\n" + body)
    # confirm: the recorded execution has to fail again
    try:
        rr = run([exe, "--replay", replay] + (["--known", ",".join(known)] if h["kind"] == "seq" else []), timeout=200, env=ENV)
        again = rr.returncode != 0 and rr.returncode not in (97, 98, 3, 4)
    except subprocess.TimeoutExpired:
        again = "HANG" in msg
        rr = None
    with open(replay, "a") as f:
        f.write("# " + msg.replace("\n", " ") + "\n")
        if rr is not None:
            for l in (rr.stdout + rr.stderr).split("\n")[-400:]:
                f.write("# " + l + "\n")
    if res is None:
        res = dict(scenario=scen)
    res.update(scenario=scen, violation=msg, replay=replay, confirmed=again, complete=False)
    return res


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    data = json.load(open(p)) if os.path.exists(p) else {"findings": []}
    return [f for f in data["findings"] if f["property"] == pid and f.get("status", "open") == "open"]


def main():
    if sys.argv[1] == "--replay":
        return replay_main(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    keep = "--keep" in sys.argv
    P = PROPS[pid]
    t0 = time.time()
    known = load_known(pid)
    keys = [k["key"] for k in known]
    wdir = os.path.join(VERIF, "build", f"{pid}-{tier}-{os.getpid()}")
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir)
    rdir = os.path.join(VERIF, "replays", pid)
    rc = 0
    try:
        hs = [h for h in P["harness"]]
        exes = build(hs, wdir)
        tasks = []
        budget = float(os.environ.get("VERIF_BUDGET", 150 if tier == "quick" else 3 * 3600))  # per scenario
        deadline = time.time() + (480 if tier == "quick" else 11 * 3600)  # exploration as a whole; later scenarios get less
        for h in hs:
            exe = exes[h["src"]]
            names = run([exe, "--list", "--tier", tier], env=ENV).stdout.split()
            names = [n for n in names if n.startswith(pid + "_")]
            if not names:
                raise Broken(f"{h['src']}: no scenario for {pid}")
            for n in names:
                parts = h.get("parts", {}).get(n, 8) if h["kind"] == "seq" else 1
                for p in range(parts):
                    tasks.append((h, exe, n, tier, (p, parts), wdir, keys, budget))
        only = os.environ.get("VERIF_ONLY")
        if only:
            tasks = [t for t in tasks if re.search(only, t[2])]
        results = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for h, r in zip([t[0] for t in tasks], ex.map(lambda t: scen_run(*t[:-1], max(5.0, min(t[-1], deadline - time.time()))), tasks)):
                r["kind"] = h["kind"]
                r["src"] = h["src"]
                results.append(r)
        errors = [r for r in results if r.get("error")]
        viol, hit = [], {}
        for r in results:
            for k in r.get("known", []):
                hit[k] = 1
            if r.get("violation"):
                kf = [k for k in known if k.get("scenario") == r["scenario"] and re.search(k["match"], r["violation"])]
                if kf:
                    hit[kf[0]["key"]] = 1
                elif not any(v["scenario"] == r["scenario"] for v in viol):
                    viol.append(r)
        for k in known:
            if k["key"] in hit:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
        confirmed = [v for v in viol if v["confirmed"]]
        for v in confirmed:
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, os.path.basename(v["replay"]))
            shutil.copy(v["replay"], dst)
            print(f"  {v['scenario']}: {v['violation']}")
            print(f"VIOLATION property={pid} replay={dst}")
        unconf = [v for v in viol if not v["confirmed"]]
        for v in unconf:
            print(f"unconfirmed (not reproducible) report in {v['scenario']}: {v['violation']}", file=sys.stderr)
        for e in errors:
            print(f"ERROR {e['scenario']}: {e['error']}", file=sys.stderr)
        if confirmed:
            rc = 1
        elif errors or unconf:
            rc = 2
        mc = [r for r in results if r["kind"] == "mc" and "schedules" in r]
        sq = [r for r in results if r["kind"] == "seq" and "executions" in r]
        states = sum(max(r["distinct_hb_prefixes"], r["distinct_outcomes"]) for r in mc) + sum(r["states"] if r["states"] else r["nodes"] for r in sq)
        trans = sum(r["transitions"] for r in mc) + sum(r["transitions"] if r["transitions"] else r["nodes"] for r in sq)
        execs = sum(r["schedules"] for r in mc) + sum(r["executions"] for r in sq)
        samples = [dict(scenario=r["scenario"], case=r.get("sample")) for r in mc if r.get("sample")][:3] + [dict(scenario=r["scenario"], case=s) for r in sq for s in r.get("samples", [])[:2]][:6]
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=P.get("level", "model_checking"),
                  coverage=dict(states=states, transitions=trans, traces_validated_against_impl=execs, samples=samples or [dict(scenario=r["scenario"]) for r in results[:3]],
                                exhaustive=all(r.get("complete") for r in results),
                                explanation=P["cov"],
                                scenarios=[{k: r[k] for k in ("scenario", "schedules", "executions", "nodes", "transitions", "states", "distinct_hb_prefixes", "distinct_outcomes", "preemption_bound", "max_steps", "complete", "wall_s") if k in r} for r in results]),
                  assumptions=P.get("assume", []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print(f"{pid} {tier}: {len(results)} scenario runs, {execs} executions, {states} states, {trans} transitions, exhaustive={ev['coverage']['exhaustive']}, {time.time()-t0:.1f}s -> exit {rc}")
        if "-v" in sys.argv:
            for r in sorted(results, key=lambda r: -r.get("wall_s", 0)):
                print("   ", r["scenario"], r.get("schedules", r.get("executions")), r.get("complete"), r.get("wall_s"), r.get("violation") or "")
    except Broken as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        rc = 2
    finally:
        if not keep:
            shutil.rmtree(wdir, ignore_errors=True)
    return rc


def replay_main(path):
    hsrc = [l[8:].strip() for l in open(path) if l.startswith("harness ")][0]
    for pid, P in PROPS.items():
        for h in P["harness"]:
            if h["src"] == hsrc:
                wdir = os.path.join(VERIF, "build", f"replay-{os.getpid()}")
                try:
                    exe = build([h], wdir)[hsrc]
                    r = run([exe, "--replay", path], env=ENV)
                    print(addr2line(exe, r.stdout) if len(r.stdout) < 20000 else r.stdout)
                    print(r.stderr)
                    return 1 if r.returncode else 0
                finally:
                    shutil.rmtree(wdir, ignore_errors=True)
    return 2


sys.exit(main())
