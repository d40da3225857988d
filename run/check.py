#!/usr/bin/env python3
"""check.py PROPERTY : decide one property by symbolic execution of /repo's compiled code.

Exit 0: held on everything explored (NOT EXPLORED lines and the evidence name what was left out), 1: violated
(with a VIOLATION line), 2: no answer (engine error, counterexample that the real code does not show, missed
cover, the engine and the real code disagree on a path, ...)."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS

VERIF = build.VERIF
CORES = os.cpu_count() or 4
DEADLINE = 780.0


def run_engine(b, job, tmax):
    cmd = [build.ENGINE, "--ll", b["ll"], "--entry", job["entry"], "--arg", str(job["arg"]),
           "--max-time", str(tmax), "--max-viol", str(job.get("max_viol", 12)),
           "--keep-paths", str(job.get("keep", 12))]
    for k in ("max_steps", "max_depth", "max_paths", "table"):
        if k in job:
            cmd += ["--" + k.replace("_", "-"), str(job[k])]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tmax + 60)
    except subprocess.TimeoutExpired:
        return dict(job=job, fatal="engine did not stop in time", wall=time.time() - t0)
    try:
        r = json.loads(p.stdout)
    except Exception:
        return dict(job=job, fatal="engine exit %s: %s" % (p.returncode, (p.stderr or p.stdout)[-400:]),
                    wall=time.time() - t0)
    r["job"] = job
    r["wall"] = time.time() - t0
    return r


def replay(b, entry, arg, hexs, timeout=30, want=None, tries=1):
    """Run the real code natively. -> dict(status=ok|check|panic|assume|error|crash|timeout, ...)"""
    r = None
    for _ in range(tries):
        d = tempfile.mkdtemp(prefix="vp_replay_")
        try:
            f = os.path.join(d, "in.hex")
            open(f, "w").write(hexs)
            root = os.path.join(d, "fs")
            os.mkdir(root)
            try:
                p = subprocess.run(["bash", "-c", "ulimit -v 4000000; ulimit -c 0; exec \"$0\" \"$@\"",
                                    b["replay"], entry, str(arg), f, root],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=d,
                                   errors="replace")
            except subprocess.TimeoutExpired:
                r = dict(status="timeout", msg="no result within %ds" % timeout, outs=[])
            else:
                try:
                    r = json.loads(p.stdout.strip().splitlines()[-1])
                except Exception:
                    r = dict(status="crash", msg="exit %s %s" % (p.returncode, p.stderr[-300:]), outs=[])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if want is None or r["status"] in want:
            break
    return r


# how an engine verdict must show natively to count
CONFIRM = {
    "check": ("check",), "fail": ("check",), "panic": ("panic", "crash"), "hang": ("timeout", "crash", "panic"),
    "stack": ("crash", "timeout"), "alloc": ("alloc", "crash", "panic", "timeout"), "memory": ("crash", "panic"),
}


def known_list():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        out = p.stdout.splitlines()
        return out if len(out) == len(names) else names
    except Exception:
        return names


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prop = PROPS[pid]
    b = build.build_all()
    tb = time.time() - t0
    jobs = []
    for j in prop["jobs"]:
        args = j.get("args", [0])
        if tier == "thorough":
            args = j.get("targs", args)
        for a in args:
            jj = dict(j)
            jj["arg"] = a
            jobs.append(jj)
    # jobs start in order; the longest come first in props.py
    budget = DEADLINE if tier == "quick" else 3600.0
    results = []
    known = [k for k in known_list() if k["property"] == pid and k.get("status") == "known"]
    stop = []

    def confirm(j, v):
        want = CONFIRM.get(v["kind"], ("check", "panic", "crash", "timeout"))
        n = replay(b, j["entry"], j["arg"], v["input"], timeout=j.get("replay_timeout", 20), want=want,
                   tries=j.get("tries", 1))
        ok = n["status"] in want and (n["status"] != "check" or n["msg"] == v["msg"])
        hit = None
        for k in known:
            if k["entry"] == j["entry"] and k["kind"] == v["kind"] and k["match"] in (n["msg"] + " | " + v["msg"]) \
                    and ("arg" not in k or k["arg"] == j["arg"]):
                hit = k
        if ok and not hit and tier == "quick":
            stop.append(j)  # a violation: jobs not yet started are left out
        return n, ok, hit
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = []
        for j in jobs:
            def go(j=j):
                left = budget - (time.time() - t0)
                if left < 5 or stop:
                    return dict(job=j, skipped=True)
                r = run_engine(b, j, min(left, j.get("time", 400.0)))
                if "only" in j:  # verdicts of other kinds belong to the property this job is borrowed from
                    r["violations"] = [v for v in r.get("violations", []) if v["kind"] in j["only"]]
                r["confirmed"] = [confirm(j, v) for v in r.get("violations", [])]
                return r
            futs.append(ex.submit(go))
        for f in futs:
            results.append(f.result())

    problems, gaps, violations, known_hit = [], [], [], []
    beyond = {}  # job -> what the engine could not follow there
    validated, mismatches, samples = 0, [], []
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tot = {k: 0 for k in ("paths_done", "paths_infeasible", "paths_viol", "forks", "steps", "checks", "checks_trivial",
                          "queries", "sat", "unsat", "unknown", "cached",
                          "byte_domain", "byte_domain_checked")}
    solver_s = 0.0
    slow = 0.0
    fns = set()
    covers = {}
    per_job = []
    cand = []
    for r in results:
        j = r["job"]
        name = "%s(%s)" % (j["entry"], j["arg"])
        if "skipped" in r:
            gaps.append("%s: not started (%s)" % (name, "violation found" if stop else "time"))
            continue
        if "fatal" in r:
            problems.append("%s: %s" % (name, r["fatal"]))
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        slow = max(slow, r["slowest_query_s"])
        fns.update(r["functions"])
        for c, n in r["covers"].items():
            covers[c] = covers.get(c, 0) + n
        per_job.append(dict(entry=j["entry"], arg=j["arg"], paths=r["paths_done"], infeasible=r["paths_infeasible"],
                            violating=r["paths_viol"], forks=r["forks"], queries=r["queries"], unsat=r["unsat"],
                            sat=r["sat"], solver_s=round(r["solver_s"], 3), wall_s=round(r["wall"], 2),
                            ir_steps=r["steps"], max_call_depth=r["max_depth"], ir_instructions=r["ir_instructions"]))
        if r["error"]:
            beyond[name] = "%s: engine: %s" % (name, r["error"])
        if r["timed_out"] and not r["violations"]:
            gaps.append("%s: exploration incomplete (time)" % name)
        for e, n in r["engine_errors"].items():
            # paths the engine could not follow: not explored
            gaps.append("%s: engine: %s (x%d)" % (name, e[:300], n))
            if n >= r["paths_done"]:
                beyond[name] = gaps[-1]
        if r["unknown"]:
            gaps.append("%s: %d solver queries unknown" % (name, r["unknown"]))
        if not r["violations"]:
            for c in j.get("covers", []):
                if not r["covers"].get(c):
                    (gaps if r["timed_out"] or r["engine_errors"] or r["error"] else problems).append("%s: vacuous: '%s' never reached" % (name, c))
        for v, c in zip(r["violations"], r["confirmed"]):
            cand.append((j, v, c))
    # no verdict when the engine could follow the code in fewer than half of the jobs
    (problems if 2 * len(beyond) > len(per_job) else gaps).extend(g for g in beyond.values() if g not in gaps)
    if 2 * len(beyond) > len(per_job):
        problems.append("the engine could not follow %d of %d jobs" % (len(beyond), len(per_job)))
    val = []
    for r in results:
        if "fatal" in r or "skipped" in r:
            continue
        j = r["job"]
        for p in r["paths"][:j.get("keep", 12)]:
            val.append((j, p))
    with cf.ThreadPoolExecutor(CORES) as ex:
        vres = list(ex.map(lambda jp: replay(b, jp[0]["entry"], jp[0]["arg"], jp[1]["input"],
                                             want=("ok",), tries=jp[0].get("tries", 1)), val))
    for j, v, (n, ok, hit) in cand:
        name = "%s(%s)" % (j["entry"], j["arg"])
        if not ok:
            problems.append("%s: counterexample (%s: %s) not shown by the real code (%s: %s)" %
                            (name, v["kind"], v["msg"][:160], n["status"], n["msg"][:160]))
            continue
        if hit:
            known_hit.append(hit)
        else:
            violations.append((j, v, n))
    for (j, p), n in zip(val, vres):
        if n["status"] == "ok" and n["outs"] == p["outs"]:
            validated += 1
            if len(samples) < 5:
                samples.append(dict(entry=j["entry"], arg=j["arg"], input=p["input"][:400], outs=p["outs"][:16]))
        else:
            mismatches.append("%s(%s) input %s: engine outs %s, real %s %s" %
                              (j["entry"], j["arg"], p["input"][:80], p["outs"][:8], n["status"],
                               n["outs"][:8] if n["status"] == "ok" else n["msg"][:120]))
    for m in mismatches[:5]:
        problems.append("engine and real code disagree: " + m)

    for k in {json.dumps(k, sort_keys=True) for k in known_hit}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    shown = set()
    for i, (j, v, n) in enumerate(violations):
        key = (j["entry"], v["kind"], v["msg"])
        if key in shown:
            continue
        shown.add(key)
        path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (pid, len(shown)))
        json.dump(dict(property=pid, entry=j["entry"], arg=j["arg"], kind=v["kind"], message=v["msg"],
                       input=v["input"], native=n, stack=v.get("stack"),
                       how="python3 run/replay.py " + os.path.relpath(path, VERIF)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s(%s) %s: %s | real code: %s %s" % (j["entry"], j["arg"], v["kind"], v["msg"][:200],
                                                    n["status"], n["msg"][:200]))
    for p in problems[:20]:
        print("PROBLEM: " + p)
    for p in gaps[:20]:
        print("NOT EXPLORED: " + p)
    obs = tot["checks"]
    names = [d for d in demangle(sorted(fns)) if "onenote_parser" in d]
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths_done"] + tot["paths_viol"] + tot["forks"],
            transitions=tot["steps"],
            traces_validated_against_impl=validated,
            samples=samples or [dict(note="no completed path")],
            paths_completed=tot["paths_done"], paths_infeasible=tot["paths_infeasible"], paths_violating=tot["paths_viol"],
            assertions_decided=obs, assertions_closed_by_rewriting=tot["checks_trivial"],
            solver_queries=tot["queries"], solver_unsat=tot["unsat"], solver_sat=tot["sat"], solver_unknown=tot["unknown"],
            branch_conditions_over_one_byte=tot["byte_domain"],
            branch_conditions_over_one_byte_also_solved=tot["byte_domain_checked"],
            query_cache_hits=tot["cached"], solver_seconds=round(solver_s, 3), slowest_query_s=round(slow, 3),
            functions_encoded=names, functions_encoded_total=len(fns),
            bounds=prop["bounds"], outside_bounds=prop.get("outside", ""),
            covers=covers, jobs=per_job, ir_key=b["key"], build_s=round(tb, 1),
            exhaustive=not problems and not gaps, not_explored=gaps[:20],
            explanation="states = completed paths + fork points; transitions = LLVM-IR instructions executed "
                        "symbolically; every completed path stands for all inputs satisfying its path condition; "
                        "assertions are decided by z3 over all those inputs",
        ),
        assumptions=prop.get("assumptions", []) + [
            "rustc's LLVM IR for the dev profile (overflow checks on) represents the shipped code; LLVM's O1 pipeline is sound",
            "HashMap hashing is replaced by fixed hash functions; text of error messages is not modelled",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(shown))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%d unsat), solver %.1fs, validated %d, wall %.1fs" % (
        pid, tier, tot["paths_done"], obs, tot["queries"], tot["unsat"], solver_s, validated, time.time() - t0))
    if shown:
        return 1
    if problems:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
