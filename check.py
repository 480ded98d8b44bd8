#!/usr/bin/env python3-vt
"""Decide one property:  check.py Cxx [--tier quick|thorough] [--only SCENARIO] [--replay FILE] [-v]

exit 0: held on everything explored (scenarios that could not be decided are listed as UNDECIDED and in the evidence);  exit 1 + VIOLATION line: broken (replayed on the real code);  2: error of the check, or most of it undecided.
"""
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
REPLAY_PY = "/opt/venv/bin/python"
if not os.path.exists(REPLAY_PY):
    REPLAY_PY = sys.executable

MEMORY = 3600 << 20
ASSUME_COMMON = [
    "CPython 3.12 executes statements, classes and coroutines as documented (the instrumented source runs in CPython itself)",
    "ctypes, struct and re are modelled by /verif/sx; each explored path's witness is re-run on the real libraries and compared",
    "z3 answers are trusted (thorough tier re-discharges the check queries with cvc5)",
]


def replay(jobs, timeout=90):
    """run jobs on the real code; -> list of result dicts (status 'crash' when the process died)"""
    out = []
    jobs = list(jobs)
    i = hangs = 0
    while i < len(jobs):
        if hangs > 1:
            out += [{"status": "skipped", "label": None, "detail": "", "observed": [], "reached": [], "missing": []}] * (len(jobs) - i)
            break
        try:
            r = subprocess.run([REPLAY_PY, "-B", os.path.join(VERIF, "sx", "replay.py")],
                               input="\n".join(json.dumps(j) for j in jobs[i:]) + "\n", text=True, capture_output=True,
                               timeout=timeout, cwd="/tmp")
            lines, err, rc = r.stdout.splitlines(), r.stderr, r.returncode
        except subprocess.TimeoutExpired as e:
            so = e.stdout or b""
            lines = (so.decode() if isinstance(so, bytes) else so).splitlines()
            err, rc = "timeout", "timeout"
        res = []
        for l in lines:
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
        out.extend(res)
        i += len(res)
        if i < len(jobs):
            if rc == "timeout" and (res or len(jobs) > i + 1):     # a slow batch is not a hang: give this job its own process
                out.extend(replay(jobs[i:i + 1], 60))
                hangs += out[-1]["status"] == "timeout"
                i += 1
                continue
            st = "timeout" if rc == "timeout" else "crash"
            hangs += st == "timeout"
            if st == "crash" and isinstance(rc, int) and rc >= 0:
                st = "error"
            out.append({"status": st, "label": "process-" + st, "detail": "rc=%s %s" % (rc, err[-800:]),
                        "observed": [], "reached": [], "missing": []})
            i += 1
    return out


def same_obs(a, b):
    return json.loads(json.dumps(a)) == json.loads(json.dumps(b))


def run_scenario(job):
    """worker: explore one scenario instance and replay what it found"""
    prop, sc, tier, seed, deadline = job
    from sx import explore as ex
    import z3
    z3.set_param("smt.random_seed", seed)
    params = {"args": sc.get("args", {})}
    if sc.get("lens"):
        params["lens"] = sc["lens"]
    cfg = {"budget_s": 150 if tier == "quick" else 2400, "max_paths": 4000 if tier == "quick" else 200000,
           "max_witness": 24 if tier == "quick" else 80}
    cfg.update(sc.get("cfg", {}))
    if tier == "thorough":
        cfg.update(sc.get("tcfg", {}))
    dumped = []
    if tier == "thorough":
        def dump(p, t, label):
            if len(dumped) < 12:
                s = z3.Solver()
                s.add(p.solver.assertions())
                s.add(z3.Not(t))
                dumped.append((label, s.to_smt2()))
        cfg["dump"] = dump
    out = {"name": sc["name"], "fn": sc["fn"], "params": params, "violations": [], "errors": [], "notes": []}
    left = deadline - time.time()
    if left < 5:
        out["errors"].append("no time left for this scenario")
        return out
    cfg["budget_s"] = min(cfg["budget_s"], left)
    try:
        r = ex.explore(sc["mod"], sc["fn"], params, cfg)
    except BaseException as e:
        out["errors"].append("explore: " + traceback.format_exc()[-1500:])
        if isinstance(e, KeyboardInterrupt):
            raise
        return out
    st = r.stats
    mk = lambda inp: {"mod": sc["mod"], "fn": sc["fn"], "params": params, "inputs": inp}
    reached = dict(st.reached)
    unrepro = []
    if r.violations:
        res = replay([mk(v["inputs"]) for v in r.violations])
        for v, q in zip(r.violations, res):
            if q["status"] in ("violation", "crash", "timeout"):
                out["violations"].append({"label": q["label"], "sym_label": v["label"], "detail": q["detail"] or v["detail"],
                                          "inputs": v["inputs"]})
            else:
                unrepro.append((v, q))
    validated = 0
    if r.witnesses and not out["violations"]:
        res = replay([mk(w["inputs"]) for w in r.witnesses])
        for w, q in zip(r.witnesses, res):
            for l in q["reached"]:
                reached.setdefault(l, 0)
            if q["status"] in ("violation", "crash", "timeout"):
                out["violations"].append({"label": q["label"], "sym_label": "(witness of a path)", "detail": q["detail"],
                                          "inputs": w["inputs"]})
            elif q["status"] == "skipped":
                pass
            elif q["status"] == "api":
                out["notes"].append("names used by the scenario are missing: " + q["detail"][-200:])
            elif q["status"] != "ok":
                out["errors"].append("witness replay %s %s inputs=%s" % (q["status"], q["detail"], json.dumps(w["inputs"])[:400]))
            elif not same_obs(w["observed"], q["observed"]):
                out["errors"].append("translation mismatch: model %s real %s inputs=%s" % (
                    json.dumps(w["observed"])[:600], json.dumps(q["observed"])[:600], json.dumps(w["inputs"])[:400]))
            else:
                validated += 1
    if r.probes and not out["violations"]:
        res = replay([mk(i) for i in r.probes])
        for i, q in zip(r.probes, res):
            for l in q["reached"]:
                reached.setdefault(l, 0)
            if q["status"] in ("violation", "crash", "timeout"):
                out["violations"].append({"label": q["label"], "sym_label": "(probe)", "detail": q["detail"], "inputs": i})
            elif q["status"] == "ok":
                validated += 1
    for v, q in unrepro:
        if not out["violations"]:
            out["errors"].append("counterexample does not reproduce: %s %s | replay: %s %s | inputs %s" % (
                v["label"], v["detail"][-700:], q["status"], q["detail"][-500:], json.dumps(v["inputs"])[:600]))
    if not out["violations"]:
        miss = [l for l in sc.get("reach", []) if l not in reached]
        if miss:
            out["errors"].append("vacuous: reachability points never reached: %s (notes %s)" % (miss, r.notes[:3]))
    xchecked = xfail = 0
    for label, smt in dumped:
        try:
            q = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=60000", "-"], input=smt, text=True, capture_output=True,
                               timeout=90)
            a = q.stdout.strip().splitlines()
            if "(error" in q.stdout:
                continue
            if a and a[0] == "unsat":
                xchecked += 1
            elif a and a[0] == "sat":
                xfail += 1
                out["errors"].append("cvc5 disagrees with z3 on %s" % label)
        except subprocess.TimeoutExpired:
            pass
    out.update(paths=st.paths, queries=st.queries, branch_queries=st.branch_queries, check_queries=st.check_queries,
               checks=st.checks, solver_s=st.solver_s, decisions=st.decisions, unknown=st.unknown, underapprox=st.underapprox,
               overapprox=st.overapprox, functions=sorted(st.functions), reached=reached, complete=r.complete,
               notes=sorted(set(r.notes))[:8] + st.bounds[:4], wall=r.wall, validated=validated, cvc5=xchecked,
               bounds=sc.get("bounds", ""), sample=(r.witnesses[:1] or [{}])[0])
    return out


def worker(conn):
    try:                       # a scenario that needs more ends with MemoryError, not with the machine's memory
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (ImportError, ValueError, OSError):
        pass
    os.setpgid(0, 0)           # so that its replays end with it
    try:                       # and it with the parent
        import ctypes
        ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
    except (OSError, AttributeError):
        pass
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        try:
            r = run_scenario(job)
        except BaseException as e:
            r = {"name": job[1]["name"], "fn": job[1]["fn"], "violations": [], "errors": ["worker failed: %r" % e]}
        conn.send(r)


def run_pool(jobs, n, hard, broken, grace=25):
    """run_scenario on n processes.  A worker that dies leaves its scenario undecided; at `hard`, or `grace` seconds after a
    violation that is not a known finding, whatever still runs is stopped."""
    ctx = mp.get_context("spawn")
    todo, busy, idle, results, errors, stopped = list(reversed(jobs)), {}, [], [], [], False

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        return a, p
    while todo or busy:
        while todo and len(busy) < n and not stopped:
            w = idle.pop() if idle else start()
            job = todo.pop()
            w[0].send(job)
            busy[w[0]] = (w, job)
        left = hard - time.time()
        if left <= 0 or stopped and not busy:
            break
        for c in mp.connection.wait(list(busy), timeout=left):
            w, job = busy.pop(c)
            try:
                r = c.recv()
            except (EOFError, OSError):
                w[1].join(5)
                errors.append("%s: worker ended (%s)" % (job[1]["name"], w[1].exitcode))
                continue
            idle.append(w)
            results.append(r)
            if not stopped and broken(r):
                stopped, hard = True, min(hard, time.time() + grace)
    for job in [j for _, j in busy.values()] + todo:
        errors.append("%s: stopped" % job[1]["name"])
    for c, p in [w for w, _ in busy.values()] + idle:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
    return results, errors


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                d = dict(x.split("=", 1) for x in l[6:].split("|")[0].split() if "=" in x)
                d["text"] = l[6:].split("|", 1)[1].strip() if "|" in l else l
                known.append(d)
    return known


def scenarios(prop, tier):
    mod = importlib.import_module("scen." + prop.lower())
    out = []
    for s in mod.SCENARIOS:
        if s.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        if s.get("tier") == "quick-only" and tier != "quick":
            continue
        s = dict(s)
        s.setdefault("mod", prop.lower())
        s.setdefault("name", s["fn"] + ("" if not s.get("args") else "(" + ",".join(
            "%s=%s" % kv for kv in sorted(s["args"].items())) + ")"))
        out.append(s)
    return mod, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit 2 when anything was left undecided (development)")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        j = json.load(open(a.replay))
        q = replay([j["job"]])[0]
        print(json.dumps(q, indent=1))
        return 1 if q["status"] in ("violation", "crash", "timeout") else 0
    prop, tier = a.prop, a.tier
    mod, scs = scenarios(prop, tier)
    if a.only:
        scs = [s for s in scs if a.only in s["name"]]
    deadline = t0 + (500 if tier == "quick" else 4 * 3600)
    known = [k for k in load_known() if k.get("property") == prop]

    def listed(r, v):
        return next((k for k in known if k.get("scenario") == r["fn"] and k.get("label") == v["label"]), None)
    jobs = [(prop, s, tier, seed, deadline) for s in scs]
    if a.j == 1 or len(scs) == 1:
        results, errors = [run_scenario(j) for j in jobs], []
    else:
        results, errors = run_pool(jobs, min(a.j, len(scs)), deadline + 60, lambda r: any(not listed(r, v) for v in r["violations"]))
    results.sort(key=lambda r: r["name"])
    viol, seen_known = [], {}
    for r in results:
        for v in r["violations"]:
            k = listed(r, v)
            if k:
                seen_known[k["text"]] = k
            else:
                viol.append((r, v))
        errors += ["%s: %s" % (r["name"], e) for e in r["errors"]]
        if a.v:
            print(r["name"], {k: r.get(k) for k in ("paths", "queries", "check_queries", "solver_s", "wall", "complete",
                                                    "validated", "overapprox", "underapprox", "cvc5", "reached", "notes")})
    wall = time.time() - t0
    tot = lambda k: sum(r.get(k, 0) or 0 for r in results)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(viol),
        "coverage": {
            "states": tot("paths"), "transitions": tot("branch_queries"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [{"scenario": r["name"], **(r.get("sample") or {})} for r in results[:2]],
            "solver_queries": tot("queries"), "assertion_queries": tot("check_queries"),
            "solver_s": round(tot("solver_s"), 3), "solver_unknown": tot("unknown"),
            "cvc5_confirmed": tot("cvc5"),
            "over_approximated_equalities": tot("overapprox"), "under_approximations": tot("underapprox"),
            "functions_encoded": [f for f in funcs if f.startswith("saltchannel")],
            "scenarios": [{"name": r["name"], "paths": r.get("paths"), "assertions": r.get("checks"),
                           "reached": r.get("reached"), "complete_within_bounds": r.get("complete"),
                           "bounds": r.get("bounds"), "notes": r.get("notes"), "wall_s": round(r.get("wall", 0), 2)}
                          for r in results],
            "exhaustive": all(r.get("complete") for r in results) and not errors,
            "undecided": [e[:400] for e in errors[:20]],
        },
        "assumptions": ASSUME_COMMON + list(getattr(mod, "ASSUMPTIONS", [])),
    }
    for r in results:
        s = ev["coverage"]["samples"]
    text = json.dumps(ev, indent=1)
    if len(text) > 400000:
        ev["coverage"]["samples"] = [str(s)[:2000] for s in ev["coverage"]["samples"]]
        text = json.dumps(ev, indent=1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        f.write(text + "\n")
    for t in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if viol:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for i, (r, v) in enumerate(viol[:5]):
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (prop, i))
            sc = next(s for s in scs if s["name"] == r["name"])
            with open(path, "w") as f:
                json.dump({"property": prop, "scenario": r["name"], "label": v["label"], "detail": v["detail"],
                           "job": {"mod": sc["mod"], "fn": sc["fn"], "params": r["params"], "inputs": v["inputs"]}}, f, indent=1)
            print("violation in %s: %s (%s) %s" % (r["name"], v["label"], v["sym_label"], v["detail"][-400:]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for e in errors[:5]:
            print("note:", e, file=sys.stderr)
        return 1
    if errors:
        bad = sum(1 for r in results if r["errors"]) + (len(scs) - len(results))
        for e in errors[:12]:
            print("UNDECIDED:", e)
        if a.strict or 2 * bad > len(scs):
            return 2
    print("%s %s: held; %d scenarios, %d paths, %d queries (%.1f s in solver), %d witnesses replayed, %.1f s%s" % (
        prop, tier, len(results), tot("paths"), tot("queries"), tot("solver_s"), tot("validated"), wall,
        "" if ev["coverage"]["exhaustive"] else " [some scenarios incomplete, see evidence]"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
