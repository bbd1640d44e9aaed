#!/usr/bin/env python3
"""Decides one property: check.py ID [quick|thorough].

1. TLC checks the property on the specification (spec/), exhaustively in the bounds of the
   configurations listed for it.
2. TLC generates schedules / cases from the specification (seeded).
3. The programs are rebuilt from /repo's working tree and driven through those schedules and the
   property's scenario families (harness/); everything observable is recorded.
4. TLC judges the recorded traces against spec/LogObs.tla (spec/Trace.tla).
Only step 4 can report a violation.
"""
import json, os, re, shutil, subprocess, sys, time, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, TIMING  # noqa: E402

REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()


class CheckError(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None, out=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise CheckError("timeout: " + " ".join(cmd)[:200])
    return p.returncode, o


def go_env():
    rc, o = sh(["bash", "-c", ". /opt/vp/env.sh; env"], 20)
    env = dict(l.split("=", 1) for l in o.splitlines() if "=" in l)
    return env


SDK = "github.com/fastly/compute-sdk-go"


def build(work, sign=False, cmds=False, edge=False):
    env = go_env()
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": {REPO + "/cmd/vsut/main.go": VERIF + "/sut/main.go", REPO + "/cmd/vsign/main.go": VERIF + "/sut/sign/main.go"}}, open(ov, "w"))
    sut, vh = os.path.join(work, "vsut"), os.path.join(work, "vh")
    rc, o = sh(["go", "build", "-overlay", ov, "-o", sut, "./cmd/vsut"], 600, env, REPO)
    if rc:
        raise CheckError("build of /repo failed:\n" + o)
    if cmds:
        rc, o = sh(["go", "build", "-o", work + "/", "./cmd/itko-submit", "./cmd/itko-monitor"], 600, env, REPO)
        if rc:
            raise CheckError("build of /repo failed:\n" + o)
    if edge:
        # the program of the edge, with the calls of its host answered by the harness
        rc, o = sh(["go", "list", "-m", "-f", "{{.Dir}}", SDK], 120, env, REPO)
        if rc:
            raise CheckError("no copy of " + SDK + ":\n" + o)
        sdk = os.path.join(work, "fsdk")
        shutil.copytree(o.strip().splitlines()[-1], sdk)
        sh(["chmod", "-R", "u+w", sdk], 60)
        abi = os.path.join(sdk, "internal", "abi", "fastly")
        os.remove(os.path.join(abi, "hostcalls_noguest.go"))
        for f in ("host.go", "rest.go"):
            shutil.copy(os.path.join(VERIF, "sut", "fastly", f), abi)
        mod = os.path.join(work, "edge.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "edge.sum"))
        rc, o = sh(["go", "mod", "edit", "-replace", SDK + "=" + sdk, mod], 120, env, REPO)
        if rc == 0:
            rc, o = sh(["go", "build", "-modfile=" + mod, "-o", os.path.join(work, "fastly-monitor"), "./cmd/fastly-monitor"], 600, env, REPO)
        if rc:
            raise CheckError("build of /repo failed:\n" + o)
    if sign:
        os.environ["VH_SIGN"] = os.path.join(work, "vsign")
        rc, o = sh(["go", "build", "-overlay", ov, "-o", os.environ["VH_SIGN"], "./cmd/vsign"], 600, env, REPO)
        if rc:
            raise CheckError("build of /repo failed:\n" + o)
        # the primitives of the signature specification
        rc, o = sh(["javac", "-cp", JAR, "-d", os.path.join(work, "cls"), os.path.join(VERIF, "spec", "EcdsaPrim.java")], 300)
        if rc:
            raise CheckError("javac failed:\n" + o)
    env["GOFLAGS"] = ""
    env["GO111MODULE"] = "on"
    rc, o = sh(["go", "build", "-o", vh, "."], 600, env, os.path.join(VERIF, "harness"))
    if rc:
        raise CheckError("build of the harness failed:\n" + o)
    return sut, vh


def tlc(work, name, cfg, mod, extra, env, timeout, mem="6g", workers="1", stop=0):
    meta = os.path.join(work, "meta-" + name)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java"] + (["-Dtlc2.TLC.stopAfter=%d" % stop] if stop else []) + ["-Xss16m", "-Xmx" + mem, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", JAR + ":" + os.path.join(work, "cls"), "tlc2.TLC", "-workers", workers, "-noTE", "-metadir", meta,
           "-config", cfg] + extra + [mod]
    rc, o = sh(cmd, timeout, e, os.path.join(VERIF, "spec"))
    shutil.rmtree(meta, ignore_errors=True)
    return rc, o


def judge(work, out, props, mod="Trace"):
    """Runs the trace specification over a recorded trace."""
    conf = os.path.join(out, "conf.json")
    json.dump({"props": props}, open(conf, "w"))
    ver = os.path.join(out, "verdict.json")
    if os.path.exists(ver):
        os.remove(ver)
    rc, o = tlc(work, "trace", mod + ".cfg", mod + ".tla", [], {"TRACE": out + "/trace.ndjson", "TABLES": out + "/tables.json", "CONF": conf, "VERDICT": ver}, 600)
    if rc != 0 or not os.path.exists(ver):
        open(os.path.join(out, "tlc.out"), "w").write(o)
        raise CheckError("trace judge failed (%d):\n%s" % (rc, o[-3000:]))
    v = json.load(open(ver))
    m = re.search(r"(\d+) states generated, (\d+) distinct", o)
    v["states"] = int(m.group(2)) if m else 0
    evs = [json.loads(l) for l in open(out + "/trace.ndjson")]
    if v["events"] != len(evs):
        raise CheckError("trace not consumed")
    names, cur = [], ""
    for e in evs:
        if e["e"] == "reset":
            cur = e["name"]
        names.append(cur)
    v["evs"], v["names"] = evs, names
    return v


def violations(v):
    """(scenario, property, label) -> list of event numbers"""
    r = {}
    for p, l, n in sorted(v["bad"], key=lambda x: x[2]):
        r.setdefault((v["names"][n - 1], p, l), []).append(n)
    return r


def run_harness(vh, sut, out, fams, seed, tier, budget, par, only="", sched="", cases=""):
    os.makedirs(out, exist_ok=True)
    cmd = [vh, "-fams", ",".join(fams), "-seed", str(seed), "-tier", tier, "-out", out, "-sut", sut, "-par", str(par), "-bins", os.path.dirname(sut), "-budget", "%ds" % budget]
    if only:
        cmd += ["-only", only]
    if sched:
        cmd += ["-sched", sched]
    if cases:
        cmd += ["-cases", cases]
    env = dict(os.environ)
    rc, o = sh(cmd, budget + 240, env)
    if rc not in (0, 3):
        raise CheckError("harness failed (%d):\n%s" % (rc, o[-4000:]))
    return json.load(open(out + "/meta.json")), o


def known(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]


def save_replay(pid, work, v, scen, keys, seed, tier):
    d = os.path.join(VERIF, "evidence", "replay-" + pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/trace.ndjson", "w") as f:
        n0 = None
        for i, (e, nm) in enumerate(zip(v["evs"], v["names"]), 1):
            if nm == scen:
                if n0 is None:
                    n0 = i
                f.write(json.dumps(e) + "\n")
    shutil.copy(os.path.join(v["dir"], "tables.json"), d)
    txt = ["property %s, scenario %s, seed %s, tier %s" % (pid, scen, seed, tier), "violated checks (line of trace.ndjson: event):"]
    for (s, p, l), ns in keys:
        if s == scen:
            for n in ns[:5]:
                txt.append("  %s at line %d: %s" % (l, n - n0 + 1, json.dumps(v["evs"][n - 1])[:600]))
    txt.append("replay: VERIF_SEED=%s /verif/tools/replay.sh %s '%s' %s" % (seed, pid, scen, tier))
    open(d + "/README", "w").write("\n".join(txt) + "\n")
    return d, "\n".join(txt)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[pid]
    tp = plan[tier]
    work = os.path.join(VERIF, ".work", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.environ["TMPDIR"] = work
    code = 2
    try:
        code = decide(pid, tier, seed, plan, tp, work)
    except CheckError as e:
        print("ERROR: %s" % e)
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(pid, tier, seed, plan, tp, work):
    jmod = plan.get("judge", "Trace")
    sut, vh = build(work, jmod == "SigTrace", "cmd" in tp["fams"], "edge" in tp["fams"])
    # --- the specification itself
    models, states, trans = [], 0, 0
    for m in tp.get("models", []):
        cfg = m["cfg"]
        if m.get("sub"):
            # a variant of the design without the mechanism the property rests on: must be refuted
            t = open(os.path.join(VERIF, "spec", cfg)).read()
            for a, b in m["sub"].items():
                if a not in t:
                    raise CheckError("%s: no %s" % (cfg, a))
                t = t.replace(a, b)
            cfg = os.path.join(work, "variant.cfg")
            open(cfg, "w").write(t)
        rc, o = tlc(work, "model", cfg, m["mod"], m.get("args", []), {}, m.get("timeout", 600), "12g", "8", m.get("stop", 0))
        if m.get("expect"):
            if rc == 0 or not re.search(r"(%s) (is|was) violated" % m["expect"], o):
                raise CheckError("variant %s %s of the specification is not refuted (not a verdict about /repo)\n%s" % (m["mod"], m["sub"], o[-3000:]))
            models.append({"module": m["mod"], "config": m["cfg"], "variant": m["sub"], "refuted_by": m["expect"], "what": m.get("what", "")})
            continue
        if rc != 0:
            raise CheckError("specification %s/%s: TLC exit %d (not a verdict about /repo)\n%s" % (m["mod"], m["cfg"], rc, o[-3000:]))
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        if not g:
            g = re.search(r"(\d+) states generated()", o)
        d = int(g.group(2) or 0) or int(g.group(1))
        models.append({"module": m["mod"], "config": m["cfg"], "generated": int(g.group(1)), "distinct": d, "what": m.get("what", "")})
        g2 = re.search(r"(\d+) states left on queue", o)
        if g2 and int(g2.group(1)):
            g3 = re.search(r"depth of the complete state graph search is (\d+)", o)
            models[-1]["not_finished"] = "breadth first, ended by its time limit at depth %s with %s states on the queue" % (g3.group(1) if g3 else "?", g2.group(1))
        states += d
        trans += int(g.group(1))
    # --- schedules / cases from the specification
    sched = cases = ""
    if tp.get("sched"):
        sched = os.path.join(work, "sched.ndjson")
        s = tp["sched"]
        rc, o = tlc(work, "sched", s["cfg"], s["mod"], ["-simulate", "num=%d" % s["num"], "-depth", str(s["depth"]), "-seed", str(seed)], {"OUT": sched}, 300)
        lines = []
        for l in o.splitlines():
            if l.startswith('"SCHED') or l.startswith("SCHED"):
                lines.append((json.loads(l) if l.startswith('"') else l)[5:])
        if not lines or "is violated" in o:
            raise CheckError("schedules: specification %s (not a verdict about /repo)\n%s" % (s["cfg"], o[-2000:]))
        g = re.findall(r"states generated: (\d+)", o.replace(",", ""))
        n = int(g[-1]) if g else 0
        models.append({"module": s["mod"], "config": s["cfg"], "generated": n, "distinct": 0, "behaviours": len(lines),
                       "what": "simulated behaviours (random walk, seed %d) of four processes, five submissions, three faults; the schedules of family sched" % seed})
        trans += n
        open(sched, "w").write("\n".join(lines) + "\n")
    if tp.get("cases"):
        cases = os.path.join(work, "cases.json")
        c = tp["cases"]
        rc, o = tlc(work, "cases", c["cfg"], c["mod"], [], {"OUT": cases, "SEED": str(seed)}, 300)
        if rc != 0 or not os.path.exists(cases):
            raise CheckError("no cases generated:\n" + o[-2000:])
        g = re.search(r"(\d+) states generated, (\d+) distinct states found", o)
        if g:
            states += int(g.group(2))
            trans += int(g.group(1))
    # --- drive the programs, judge what they did
    out = os.path.join(work, "out")
    meta, o = run_harness(vh, sut, out, tp["fams"], seed, tier, tp.get("budget", 25), tp.get("par", 6), tp.get("only", ""), sched, cases)
    retry = [s["name"] for s in meta["scenarios"] if s.get("err")]
    props = plan.get("props", [pid])
    v = judge(work, out, props, jmod)
    v["dir"] = out
    viol = violations(v)
    if retry:
        # a scenario that failed for reasons of the harness is run again, alone
        for nm in retry[:4]:
            o2 = os.path.join(work, "retry")
            shutil.rmtree(o2, ignore_errors=True)
            m2, txt = run_harness(vh, sut, o2, tp["fams"], seed, tier, 60, 1, "=" + nm, sched, cases)
            if any(s.get("err") for s in m2["scenarios"]) and not viol:
                raise CheckError("scenario failed: " + txt[-3000:])
    # clock-bound checks must fail again when the scenario runs alone
    confirmed = {}
    rerun = {}
    for k, ns in viol.items():
        if k[2] in TIMING:
            if k[0] not in rerun:
                o2 = os.path.join(work, "confirm")
                shutil.rmtree(o2, ignore_errors=True)
                if len(rerun) < 3:
                    run_harness(vh, sut, o2, tp["fams"], seed, tier, 60, 1, "=" + k[0], sched, cases)
                    rerun[k[0]] = {(a, b, c) for (a, b, c) in violations(judge(work, o2, props, jmod))}
                else:
                    rerun[k[0]] = None
            if rerun[k[0]] is not None and k not in rerun[k[0]]:
                continue
            if rerun[k[0]] is None:
                continue
        confirmed[k] = ns
    fnd, rest = [], {}
    kf = known(pid)
    for k, ns in confirmed.items():
        hit = [f for f in kf if f["scenario"] == k[0] and k[2] in f["labels"]]
        if hit:
            fnd.append((hit[0], k))
        else:
            rest[k] = ns
    seen = set()
    for f, k in fnd:
        if f["id"] not in seen:
            seen.add(f["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    evals = {}
    for p, l, n in v["cnt"]:
        evals[l] = evals.get(l, 0) + n
    scen = [s for s in meta["scenarios"] if not s.get("err")]
    empty = [l for l in plan.get("need", []) if not evals.get(l)]
    sample = []
    for s in scen[:1] + scen[-1:]:
        ev = [e for e, nm in zip(v["evs"], v["names"]) if nm == s["name"]]
        sample.append({"scenario": s["name"], "events": len(ev), "head": ev[:2], "tail": ev[-3:]})
    cov = {
        "states": states + v["states"], "transitions": trans + v["events"],
        "traces_validated_against_impl": len(scen), "samples": sample,
        "models": models, "trace_events": v["events"], "scenarios_not_started": meta["skipped"],
        "storage_operations": sum(s["ops"] for s in scen), "check_evaluations": evals, "total_evaluations": sum(evals.values()),
        "scenario_names": sorted(s["name"] for s in scen)[:400], "families": tp["fams"],
        "known_findings_reproduced": sorted(seen),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": plan.get("assume", []), "wall_s": round(time.time() - T0, 2), "violations": len(rest)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if rest:
        keys = sorted(rest.items(), key=lambda x: x[1][0])
        d, txt = save_replay(pid, work, v, keys[0][0][0], keys, seed, tier)
        print(txt)
        for (s, p, l), ns in keys[:40]:
            print("  %s: %s (%d times)" % (s, l, len(ns)))
        print("VIOLATION property=%s replay=%s" % (pid, d))
        return 1
    if empty:
        raise CheckError("checks never evaluated: %s" % empty)
    print("%s holds: %d scenarios, %d events, %d evaluations, %d model states, %.1f s" % (pid, len(scen), v["events"], sum(evals.values()), states, time.time() - T0))
    return 0


main()
