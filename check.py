#!/usr/bin/env python3
"""Solver-based check of one property:   python3-vt /verif/check.py C01 [quick|thorough]

Exit 0: held on everything explored; exit 1 with a VIOLATION line: a counterexample of the solver, reproduced by
running the real (uninstrumented) code on the agent's own interpreter.
"""
import ast
import json
import multiprocessing
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(30000)
sys.unraisablehook = lambda *a: None
sys.dont_write_bytecode = True

REPLAY_PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


# ------------------------------------------------------------------ plans
def load_plan(pid, tier):
    """The plan() function of props/cNN.py, evaluated without loading the harness module."""
    path = os.path.join(HERE, "props", pid.lower() + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    keep = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and (n.name == "plan" or n.name.startswith("plan_")):
            keep.append(n)
        elif isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) and t.id.startswith("P_") for t in n.targets):
            keep.append(n)
    g = {}
    exec(compile(ast.Module(keep, []), path, "exec"), g)
    p = g["plan"](tier)
    out = []
    for j in p["jobs"]:
        for case in j.get("cases") or [{}]:
            opts = {k: v for k, v in j.items() if k not in ("cases",)}
            opts["case"] = case
            opts["harness"] = "props.%s:%s" % (pid.lower(), j["fn"])
            if j.get("yields"):
                opts["harness"] += "@" + ",".join(j["yields"])
            out.append(opts)
    p["jobs"] = out
    return p


def load_known(pid):
    """-> [(key, text)] of the recorded, unrepaired findings of a property"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(" ", 2)[2]
                    if rest.startswith("key=["):
                        key, _, text = rest[5:].partition("] ")
                        out.append((key, text))
    return out


# ------------------------------------------------------------------ workers
_loaded = {}


def work(task):
    t0 = time.time()
    job = task["job"]
    from sx import loader, core, rt
    from sx.rt import Unsupported
    r = {"job": task["n"], "pending": [], "violations": [], "known": {}, "incomplete": [], "samples": [],
         "stats": None, "error": None}
    try:
        h = job["harness"]
        fn = _loaded.get(h)
        if fn is None or loader._world is not fn.world:
            fn = loader.load_harness(h, True)
            _loaded.clear()
            _loaded[h] = fn
        ex = core.Explorer(fn, job["case"], max_steps=job.get("max_steps", 20000),
                           hang_is_violation=job.get("hang", False), known=task["known"],
                           prefixes=task["prefixes"], slice_s=task["slice"],
                           time_limit=max(1.0, task["deadline"] - time.time()),
                           query_timeout_ms=job.get("query_ms", 15000), seed=task["seed"],
                           samples=job.get("samples", 3), max_paths=job.get("max_paths", 10 ** 9))
        ex.explore()
        r["pending"] = ex.stack if len(ex.violations) < ex.max_violations else []
        r["violations"] = ex.violations
        r["known"] = ex.known_hits
        r["incomplete"] = ex.incomplete
        r["samples"] = ex.samples
        r["stats"] = ex.stats.as_dict()
    except Unsupported as e:
        r["incomplete"] = ["unsupported at load: %s" % (e,)]
    except BaseException as e:
        import traceback
        r["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    r["wall"] = time.time() - t0
    return r


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, n in v.items():
                d[x] = d.get(x, 0) + n
        else:
            a[k] = sorted(set(a.get(k, [])) | set(v))
    return a


# ------------------------------------------------------------------ replay
def replay(jobs, timeout=60):
    """Run jobs on the real code; -> list of results (None: did not end in time)."""
    out = []
    todo = list(jobs)
    while todo:
        import tempfile
        fd, path = tempfile.mkstemp(suffix=".json", prefix="vrf")
        with os.fdopen(fd, "w") as f:
            json.dump(todo, f)
        env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen([REPLAY_PY, "-m", "sx.replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=env, cwd=HERE)
        try:
            so, se = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            hung = True
        os.unlink(path)
        lines = [json.loads(l) for l in so.decode("utf-8", "replace").splitlines() if l.startswith("{")]
        out.extend(lines)
        todo = todo[len(lines):]
        if not todo:
            break
        if hung:
            out.append(None)
        else:
            out.append({"violation": None, "observed": None, "cut": False,
                        "error": "replay ended early: " + se.decode("utf-8", "replace")[-800:]})
        todo = todo[1:]
    return out


def main(argv):
    pid = argv[1].upper()
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = load_plan(pid, tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        plan["jobs"] = [j for j in plan["jobs"] if only in j["fn"]]
    limit = plan.get("limit", 150 if tier == "quick" else 780)
    deadline = t0 + limit
    known = load_known(pid)
    keys = [k for k, _ in known]
    jobs = plan["jobs"]
    total = {}
    per = [{"paths": 0, "reached": {}, "wall": 0.0} for _ in jobs]
    incomplete, errors, violations, hits, samples = [], [], [], {}, []
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(WORKERS)
    queue = [{"n": i, "job": j, "prefixes": None} for i, j in enumerate(jobs)]
    # longest first, as announced by the plan
    queue.sort(key=lambda t: -t["job"].get("weight", 1))
    running = []
    stopped = False

    def submit():
        while queue and len(running) < WORKERS:
            t = queue.pop(0)
            t.update(known=keys, deadline=deadline, seed=seed,
                     slice=(3.0 if tier == "quick" else 8.0) if len(jobs) < 400 else None)
            running.append((t, pool.apply_async(work, (t,))))

    submit()
    while running:
        time.sleep(0.005)
        for it in list(running):
            t, a = it
            if not a.ready():
                if time.time() > deadline + 40:
                    incomplete.append("%s %s: worker did not return in time" % (t["job"]["fn"], t["job"]["case"]))
                    running.remove(it)
                continue
            running.remove(it)
            r = a.get()
            n = t["n"]
            tag = "%s%s" % (jobs[n]["fn"], json.dumps(jobs[n]["case"]) if jobs[n]["case"] else "")
            if r["error"]:
                errors.append("%s: %s" % (tag, r["error"]))
            if r["stats"]:
                merge(total, r["stats"])
                per[n]["paths"] += r["stats"]["paths"]
                per[n]["wall"] += r["wall"]
                for k, v in r["stats"]["reached"].items():
                    per[n]["reached"][k] = per[n]["reached"].get(k, 0) + v
            for x in r["incomplete"]:
                s = "%s: %s" % (tag, x)
                if s not in incomplete:
                    incomplete.append(s)
            for v in r["violations"]:
                v["harness"], v["case"] = jobs[n]["harness"], jobs[n]["case"]
                violations.append(v)
            for k, v in r["known"].items():
                v["harness"], v["case"] = jobs[n]["harness"], jobs[n]["case"]
                hits.setdefault(k, v)
            for s_ in r["samples"]:
                s_["harness"], s_["case"] = jobs[n]["harness"], jobs[n]["case"]
                samples.append(s_)
            pend = r["pending"]
            if pend and time.time() < deadline and not stopped:
                k = max(1, min(len(pend), WORKERS))
                for c in range(k):
                    queue.append({"n": n, "job": jobs[n], "prefixes": pend[c::k]})
            elif pend:
                incomplete.append("%s: stopped with %d pending branches" % (tag, len(pend)))
            if len(violations) >= 8 and not stopped:
                stopped = True
                queue = []
        submit()
    pool.terminate()
    explore_wall = time.time() - t0

    # ---- counterexamples must reproduce on the real code
    confirmed, unconfirmed = [], []
    rdir = os.path.join(EVID, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    seen = set()
    pick = []
    for v in violations:
        k = (v["harness"], v["msg"])
        if len([1 for s in pick if (s["harness"], s["msg"]) == k]) < 2:
            pick.append(v)
    for i, v in enumerate(pick[:12]):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump([{"harness": v["harness"], "case": v["case"], "assignment": v["assignment"],
                        "msg": v["msg"]}], f, indent=1)
        r = replay([v], timeout=15)[0]
        hang = v["msg"].startswith("HANG")
        if r is None:
            ok, what = hang, "does not end"
        else:
            ok, what = bool(r["violation"]), r["violation"] or r["error"] or "no violation in the replay"
            if not ok and v["msg"].startswith("EXCEPTION") and r.get("exception") and \
                    r["exception"].split()[1] == v["msg"].split()[1] and "from None" not in r["exception"]:
                ok, what = True, r["exception"]
        if ok:
            confirmed.append((v, path, what))
            if len(confirmed) >= 3:
                break
        else:
            unconfirmed.append((v, path, what))
    # ---- paths sampled from the exploration run on the real code as well
    validated, mismatch = 0, []
    if not confirmed and samples:
        step = max(1, len(samples) // (60 if tier == "quick" else 300))
        sel = samples[::step]
        res = replay(sel, timeout=60 if tier == "quick" else 200)
        for s, r in zip(sel, res):
            if r is not None and r["violation"] and not r["error"] and len(confirmed) < 3:
                # the encoding holds on this assignment, the real code does not: believe the real code
                v = {"harness": s["harness"], "case": s["case"], "assignment": s["assignment"], "msg": r["violation"]}
                again = replay([v], timeout=15)[0]
                if again is not None and again["violation"] == r["violation"]:
                    path = os.path.join(rdir, "%s-t%d.json" % (pid, len(confirmed)))
                    with open(path, "w") as f:
                        json.dump([v], f, indent=1)
                    confirmed.append((v, path, r["violation"]))
            if r is None or r["error"] or r["violation"] or r["cut"]:
                mismatch.append((s, r))
            elif json.loads(json.dumps(s["observed"])) != r["observed"] and "<part of token>" not in json.dumps(s["observed"]):
                mismatch.append((s, r))
            else:
                validated += 1
    for j, p in zip(jobs, per):
        for lab in j.get("reach", ()):
            if not p["reached"].get(lab) and not confirmed:
                incomplete.append("%s%s: witness '%s' not reached" % (j["fn"], json.dumps(j["case"]), lab))

    level = plan.get("level", "model_checking")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "states": int(total.get("paths", 0)),
            "transitions": int(total.get("decisions", 0)),
            "traces_validated_against_impl": validated,
            "samples": [{"harness": s["harness"], "case": s["case"], "assignment": s["assignment"],
                         "observed": s["observed"]} for s in samples[:4]],
            "exhaustive": not incomplete and not total.get("bound_hits") and not total.get("concretized"),
            "rule": "states: feasible paths of the harness over the real code, each standing for all inputs that "
                    "satisfy its path condition; transitions: symbolic branch decisions with both sides feasible",
            "bounds": plan.get("bounds", ""), "outside": plan.get("outside", ""),
            "functions_encoded": [f for f in total.get("functions", []) if f.startswith("dataplicity")],
            "paths_cut_by_assumptions": int(total.get("cut", 0)),
            "loop_bound_hits": int(total.get("bound_hits", 0)),
            "feasibility_queries": int(total.get("feas_queries", 0)),
            "assertion_queries": int(total.get("check_queries", 0)),
            "assertions_discharged": int(total.get("discharged", 0)),
            "assertions_discharged_by_solver": int(total.get("discharged_solver", 0)),
            "solver_unknown": int(total.get("unknown", 0)),
            "solver_s": round(total.get("solver_s", 0.0), 2),
            "values_fixed": total.get("concretized", {}),
            "reach_witnesses": total.get("reached", {}),
            "jobs": len(jobs), "incomplete": incomplete[:40],
            "replay_mismatches": len(mismatch), "unconfirmed_counterexamples": len(unconfirmed),
        },
        "assumptions": sorted(set(total.get("assumptions", [])) | set(plan.get("assumptions", []))),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    verbose = os.environ.get("VERIF_VERBOSE")
    print("%s %s: %d paths, %d cut, %d decisions, %d assertions discharged (%d by the solver), solver %.1fs, "
          "explored in %.1fs, %d/%d traces validated" %
          (pid, tier, total.get("paths", 0), total.get("cut", 0), total.get("decisions", 0),
           total.get("discharged", 0), total.get("discharged_solver", 0), total.get("solver_s", 0.0), explore_wall,
           validated, validated + len(mismatch)))
    for x in incomplete[:12]:
        print("NOTE incomplete: " + x)
    for k, n in list(total.get("concretized", {}).items())[:6]:
        print("NOTE fixed values: %s (%d times)" % (k, n))
    for s, r in mismatch[:2 if not verbose else 4]:
        print("NOTE replay differs: %s %s %s\n   symbolic %s\n   real     %s" % (
            s["harness"], s["case"], json.dumps(s["assignment"])[:600], json.dumps(s["observed"])[:600],
            json.dumps(r)[:900]))
    for v, path, what in unconfirmed[:4]:
        print("NOTE unconfirmed counterexample (not reported): %s %s: %s -> %s [%s]" % (
            v["harness"], v["case"], v["msg"], what[:700], path))
    if verbose:
        for j, p in sorted(zip(jobs, per), key=lambda x: -x[1]["wall"])[:25]:
            print("   %6.1fs %6d paths %s %s %s" % (p["wall"], p["paths"], j["fn"], j["case"], p["reached"]))
    for k, text in known:
        if k in hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    for e in errors[:4]:
        print("ERROR " + e)
    if confirmed:
        for v, path, what in confirmed:
            print("counterexample: %s %s: %s" % (v["harness"], json.dumps(v["case"]), what))
            print("   values: " + json.dumps(v["assignment"])[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        return 3
    return 0


if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
