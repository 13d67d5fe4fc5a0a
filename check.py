#!/usr/bin/env python3-vt
"""Decide one property: python3-vt -B check.py C01 [quick|thorough] | check.py --replay FILE"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("PYVC_REPO", "/repo")   # a scratch copy, for self-tests of the checks
sys.path.insert(0, REPO)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.path.insert(0, VERIF)
os.chdir(REPO)
sys.setrecursionlimit(12000)

LIMIT = {"quick": 560, "thorough": 800}


def load(prop):
    m = importlib.import_module("contracts." + prop.lower())
    return m.M


class Alarm(Exception):
    pass


def _alarm(*a):
    raise TimeoutError("the call does not return within its time limit")


def kinds(v, depth=0):
    """The types of a value and of what it holds."""
    out = {(depth, type(v))}
    if isinstance(v, (list, tuple)) and depth < 3:
        for x in v:
            out |= kinds(x, depth + 1)
    return out


def concrete(domain, value):
    """Whether a value read off a solver's model is a real input: made of the types the inputs of the domain are made of, none of
    them a name the solver gave to an element of an abstract sort."""
    import random
    if "!val!" in repr(value):
        return False
    rng, known = random.Random(0), set()
    for _ in range(60):
        try:
            known |= kinds(domain.gen(rng))
        except Exception:
            continue
    return kinds(value) <= known


def worker(task):
    kind, prop, idx, arg = task
    import logging
    logging.disable(logging.CRITICAL)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        M = load(prop)
        goal = M.goals[idx]
        from pyvc import goals as G
        if kind == "sym":
            return (kind, idx, G.run_symbolic(M, goal, arg))
        if kind == "native":
            seed, count, secs = arg
            return (kind, idx, G.sample_native(goal, seed, count, secs))
        if kind == "models":
            out = []
            for model in arg:
                inputs = {}
                try:
                    for k, d in goal.domains.items():
                        inputs[k] = d.from_model(model[k])
                        if not concrete(d, inputs[k]):
                            raise ValueError("an abstract value")
                    r = G.run_native(goal, inputs)
                except Exception:
                    continue
                if r is not None and r != "skip":
                    out.append({"inputs": G.describe(inputs), "model": model, "clause": r[1], "detail": r[2]})
                    break
            return (kind, idx, out)
    except BaseException as E:
        return (kind, idx, {"crash": "%s: %s\n%s" % (type(E).__name__, E, traceback.format_exc()[-3000:])})


def known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    outdir = os.environ.get("PYVC_OUT", os.path.join(VERIF, "evidence"))
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join(outdir, "%s.replay.json" % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    violations = []
    try:
        M = load(prop)
    except BaseException as E:
        with open(replay, "w") as f:
            json.dump({"property": prop, "obligation": "contract module import", "output": traceback.format_exc()}, f)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    deadline = t0 + LIMIT[tier] * 0.62
    thorough = tier == "thorough"
    tasks = []
    order = sorted(range(len(M.goals)), key=lambda i: -M.goals[i].seconds)
    for i in order:
        g = M.goals[i]
        if not g.bounded:
            tasks.append(("sym", prop, i, deadline))
    for i in order:
        g = M.goals[i]
        tasks.append(("native", prop, i, (seed, g.samples * (25 if thorough else 1), 150 if thorough else 40)))
    sym, nat = {}, {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, tasks)
        done = 0
        while done < len(tasks):
            try:
                kind, idx, r = it.next(timeout=max(1, t0 + LIMIT[tier] * 0.8 - time.time()))
            except mp.TimeoutError:
                break
            done += 1
            (sym if kind == "sym" else nat)[idx] = r
        pool.terminate()
    suspects = {}
    obligations, within = [], []
    for i, g in enumerate(M.goals):
        if g.bounded:
            continue
        r = sym.get(i)
        if r is None or "crash" in r:
            suspects[i] = [{"name": "%s: verification condition" % g.name, "status": "unknown",
                            "detail": "no answer" if r is None else r["crash"], "model": None, "backend": "vcgen"}]
            continue
        (within if g.bound else obligations).extend(r["obligations"])
        bad = [o for o in r["obligations"] if o["status"] != "discharged"]
        if bad or not r["obligations"]:
            suspects[i] = bad or [{"name": "%s: no obligation" % g.name, "status": "unknown", "detail": "", "model": None}]
    concrete = {}
    for i, r in nat.items():
        if isinstance(r, dict):
            suspects.setdefault(i, []).append({"name": "%s: bounded run" % M.goals[i].name, "status": "unknown",
                                               "detail": r["crash"], "model": None})
        elif r[3]:
            concrete[i] = r[3]
    for i, g in enumerate(M.goals):
        if i not in nat:
            suspects.setdefault(i, []).append({"name": "%s: bounded run" % g.name, "status": "unknown",
                                               "detail": "no answer within the time limit", "model": None})
        elif not isinstance(nat[i], dict) and nat[i][0] == 0:
            suspects.setdefault(i, []).append({"name": "%s: bounded run" % g.name, "status": "unknown",
                                               "detail": "no sample satisfied the precondition", "model": None})
    # look for a concrete input for every undischarged obligation
    left = [i for i in suspects if i not in concrete]
    if left:
        more = []
        for i in left:
            models = [o["model"] for o in suspects[i] if o.get("model")][:40]
            if models:
                more.append(("models", prop, i, models))
            for s in range(3):
                more.append(("native", prop, i, (seed + 1000 + s, M.goals[i].samples * 40, 60)))
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(worker, more)
            n = 0
            while n < len(more):
                try:
                    kind, idx, r = it.next(timeout=max(1, t0 + LIMIT[tier] - time.time()))
                except mp.TimeoutError:
                    break
                n += 1
                if kind == "models" and isinstance(r, list) and r:
                    concrete.setdefault(idx, r[0])
                elif kind == "native" and not isinstance(r, dict) and r[3]:
                    concrete.setdefault(idx, r[3])
            pool.terminate()
    report = []
    for i in sorted(set(suspects) | set(concrete)):
        g = M.goals[i]
        rec = {"property": prop, "goal": g.name, "goal_index": i,
               "failed_obligations": [{k: o.get(k) for k in ("name", "status", "backend", "detail", "model")}
                                      for o in suspects.get(i, [])][:20],
               "input": concrete.get(i)}
        report.append(rec)
    kf = known(prop)
    quiet = []
    for rec in list(report):
        for k in kf:
            if rec["goal"] == k["goal"]:
                quiet.append((rec, k))
                report.remove(rec)
                break
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    n_ob = len(obligations)
    n_dis = sum(1 for o in obligations if o["status"] == "discharged")
    by_goal = []
    for i, g in enumerate(M.goals):
        r = sym.get(i) or {}
        nr = nat.get(i)
        by_goal.append({
            "goal": g.name, "functions_under_contract": [fname(f) for f in g.of],
            "mode": "bounded samples" if g.bounded else "deductive, " + g.bound if g.bound else "deductive",
            "paths": r.get("paths"), "obligations": len(r.get("obligations", [])),
            "discharged": sum(1 for o in r.get("obligations", []) if o["status"] == "discharged"),
            "clauses": g.names(), "back_ends": r.get("backends"), "solver_s": r.get("solver_s"),
            "secs": r.get("secs"),
            "bounded_samples": nr[0] if nr and not isinstance(nr, dict) else None,
            "bounded_distinct": nr[1] if nr and not isinstance(nr, dict) else None,
        })
    backends = {}
    for r in sym.values():
        for k, v in (r.get("backends") or {}).items():
            backends[k] = backends.get(k, 0) + v
    inlined = sorted({x for r in sym.values() for x in r.get("inlined", [])})
    trusted = sorted({x for r in sym.values() for x in r.get("trusted", [])})
    level = claimed_level(prop)
    evals = sum(nr[0] for nr in nat.values() if not isinstance(nr, dict))
    dist = sum(nr[1] for nr in nat.values() if not isinstance(nr, dict))
    samples = [s for nr in nat.values() if not isinstance(nr, dict) for s in nr[2]][:10]
    cov = {
        "obligations": n_ob, "discharged": n_dis,
        "checker_cmd": "python3-vt -B /verif/check.py %s %s" % (prop, tier),
        "trusted_base": ["pyvc verification condition generator (/verif/pyvc), z3 %s, cvc5" % _z3(),
                         "CPython semantics as encoded in pyvc/interp.py and pyvc/builtin_models.py"] + trusted,
        "evaluations": evals, "distinct_nontrivial": dist,
        "rule": "a bounded sample counts when it satisfies the goal's precondition and reaches an ensures clause; "
                "distinct by printed input",
        "samples": samples or ["none"],
        "back_ends": backends, "functions_executed_symbolically": inlined, "goals": by_goal,
        "contracts_used_at_calls": sorted({x for r in sym.values() for x in r.get("contracts_used", [])}),
        "bounded_goals": [g.name for g in M.goals if g.bounded],
        "obligations_within_a_bound": {
            "not counted in obligations and discharged": len(within),
            "discharged": sum(1 for o in within if o["status"] == "discharged"),
            "bounds": {g.name: g.bound for g in M.goals if g.bound}},
        "undischarged": [{"name": o["name"], "status": o["status"], "detail": o["detail"][:300]}
                         for o in obligations + within if o["status"] != "discharged"][:50],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(M, "assumptions", [])) + ["trusted: " + t for t in trusted],
          "wall_s": round(time.time() - t0, 2),
          "violations": [{"goal": r["goal"], "input": r["input"],
                          "obligations": [o["name"] for o in r["failed_obligations"]][:5]} for r in report]}
    with open(os.path.join(outdir, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged over %d goals, %d bounded samples, %.1fs"
          % (prop, n_dis, n_ob, len(M.goals), evals, time.time() - t0))
    if report:
        report.sort(key=lambda r: r["input"] is None)
        with open(replay, "w") as f:
            json.dump({"property": prop, "violations": report}, f, indent=1, default=str)
        for r in report:
            print("  goal %s: %s" % (r["goal"], json.dumps(r["input"], default=str)[:600] if r["input"]
                                     else "; ".join(o["name"] + " [" + str(o["status"]) + "] " + str(o["detail"])[:200]
                                                    for o in r["failed_obligations"][:3])))
        tail = "" if report[0]["input"] else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, tail))
        return 1
    return 0


def fname(f):
    if isinstance(f, str):
        return f
    if isinstance(f, property):
        f = f.fget
    return "%s.%s" % (getattr(f, "__module__", "?"), getattr(f, "__qualname__", f))


def claimed_level(prop):
    """The level MANIFEST.json claims for the property."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json")) as f:
        for c in json.load(f)["checks"]:
            if c["property"] == prop:
                return c["level"]
    return "proof"


def _z3():
    import z3
    return z3.get_version_string()


def replay_file(path):
    d = json.load(open(path))
    M = load(d["property"])
    from pyvc import goals as G
    import random
    rc = 0
    for v in d["violations"]:
        goal = M.goals[v["goal_index"]]
        inp = v["input"]
        if not inp:
            print("%s: no failing input; failed obligations:" % v["goal"])
            for o in v["failed_obligations"]:
                print("   ", o["name"], o["status"], o["detail"])
            continue
        if "model" in inp:
            inputs = {k: dom.from_model(inp["model"][k]) for k, dom in goal.domains.items()}
        else:
            rng = random.Random("%s/%s" % (goal.name, inp["seed"]))
            for i in range(inp["index"] + 1):
                try:
                    inputs = {k: dom.gen(rng) for k, dom in goal.domains.items()}
                except G.Skip:
                    continue
        print(v["goal"], G.describe(inputs), "->", G.run_native(goal, inputs))
        rc = 1
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay_file(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
