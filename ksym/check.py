"""Decides one property: explores its harness instances, replays what fails.

usage: check.py PROPERTY [quick|thorough] [--only INSTANCE] [-v]"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.append("/opt/venv/lib/python3.12/site-packages")
REPLAY_PY = "/opt/venv/bin/python"
JOBS = int(os.environ.get("KSYM_JOBS", "8"))


def replay(cases, timeout=300):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [REPLAY_PY, "-m", "ksym.replay_worker"], cwd=VERIF, env=env,
        input=json.dumps(cases).encode(), stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, timeout=timeout)
    out = [json.loads(l) for l in p.stdout.decode().splitlines()]
    if len(out) != len(cases):
        raise RuntimeError("replay worker died: %s"
                           % p.stderr.decode()[-2000:])
    return out


BLANK = {"failures": [], "samples": [], "reached": {}, "paths": 0,
         "completed": 0, "aborted": 0, "stats": {}, "functions": [],
         "wall": 0, "open": []}


def child(conn, module, inst, roots, slice_s):
    from ksym import explore
    try:
        explore.setup()
        r = explore.explore(module, inst["fn"], inst.get("params", {}),
                            inst.get("limits", {}), roots, slice_s)
    except BaseException as e:
        import traceback
        r = dict(BLANK, status="error", why="%s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-3000:]))
    conn.send(r)
    conn.close()
    os._exit(0)


def merge(a, b, want):
    """The result of two parts of one instance."""
    if a is None:
        return b
    out = dict(a)
    for k in ("paths", "completed", "aborted", "wall"):
        out[k] = a[k] + b[k]
    out["failures"] = a["failures"] + b["failures"]
    out["samples"] = (a["samples"] + b["samples"])[:want]
    for k in ("reached", "stats"):
        out[k] = dict(a[k])
        for n, v in b[k].items():
            out[k][n] = out[k].get(n, 0) + v
    out["functions"] = sorted(set(a["functions"]) | set(b["functions"]))
    if a["status"] == "ok":
        out["status"], out["why"] = b["status"], b["why"]
    return out


def run_all(module, instances, on_result, deadline):
    """Runs instances in parallel, splitting up those that take long;
    on_result returning True stops."""
    from multiprocessing.connection import wait
    todo = [(i, None) for i in range(len(instances))]
    running = {}
    parts, left, done = {}, {}, {}
    for i, _ in todo:
        left[i] = 1
    stop = False
    seq = 0
    while (todo or running) and not stop:
        while todo and len(running) < JOBS:
            i, roots = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(
                b, module, instances[i], roots, 5 if roots is None else 15))
            p.start()
            b.close()
            seq += 1
            running[seq] = (p, a, i)
        ready = wait([a for _, a, _ in running.values()], timeout=1)
        for n, (p, a, i) in list(running.items()):
            if a not in ready:
                continue
            try:
                r = a.recv()
            except EOFError:
                r = dict(BLANK, status="error", why="worker died")
            p.join()
            del running[n]
            want = instances[i].get("limits", {}).get("samples", 3)
            parts[i] = merge(parts.get(i), r, want)
            left[i] -= 1
            prefixes = r["open"] if r["status"] == "ok" else []
            if parts[i]["paths"] > instances[i].get("limits", {}).get(
                    "paths", 200000):
                prefixes, parts[i]["status"] = [], "inconclusive"
                parts[i]["why"] = "too many paths"
            k = min(len(prefixes), JOBS)
            for c in range(k):
                todo.append((i, prefixes[c::k]))
            left[i] += k
            if left[i] == 0 or r["status"] != "ok":
                done[i] = parts[i]
                if on_result(instances[i], parts[i]):
                    stop = True
                if r["status"] != "ok":      # no need for the rest of it
                    todo = [t for t in todo if t[0] != i]
                    left[i] = -10 ** 9
                    parts[i]["failures"] = []
        if time.time() > deadline:
            break
    for p, a, i in running.values():
        p.kill()
        p.join()
    return done


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = None
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
        args = [a for a in args if a != only]
        tier = args[1] if len(args) > 1 else "quick"
    t0 = time.time()
    budget = 840 if tier == "quick" else 6 * 3600
    module = "harness.%s" % prop.lower()
    mod = importlib.import_module(module)
    del sys.modules[module]
    for n in list(sys.modules):
        if n.split(".")[0] == "harness":
            del sys.modules[n]
    instances = mod.instances(tier)
    if only:
        instances = [i for i in instances if only in i["name"]]
    for i in instances:
        i["params"] = json.loads(json.dumps(i.get("params", {})))
        lim = i.setdefault("limits", {})
        lim.setdefault("seconds", 780 if tier == "quick" else 5 * 3600)
    known = load_known(prop)
    violations, problems, known_hits = [], [], []

    def on_result(inst, r):
        if verbose:
            print("%-34s %-12s paths=%d done=%d cut=%d dec=%s obl=%s "
                  "%.1fs solver=%s reach=%s %s" % (
                      inst["name"], r["status"], r["paths"], r["completed"],
                      r["aborted"], r["stats"].get("decisions"),
                      r["stats"].get("obligations"), r["wall"],
                      r["stats"].get("solver_s"), r["reached"],
                      r["why"]), flush=True)
        if r["status"] in ("error", "inconclusive"):
            problems.append("%s: %s" % (inst["name"], r["why"]))
        for f in r["failures"]:
            case = {"module": module, "fn": inst["fn"],
                    "params": inst.get("params", {}), "inputs": f["inputs"]}
            got = replay([case])[0]
            if verbose:
                print("  counterexample: %s\n  inputs: %s\n  tb: %s\n"
                      "  replay: %s" % (
                          f["msg"], json.dumps(f["inputs"])[:1500],
                          "\n".join(f.get("tb") or []), got), flush=True)
            if got["status"] in ("violation", "exception"):
                violations.append(dict(case, instance=inst["name"],
                                       message=f["msg"], observed=got))
            else:
                problems.append("%s: counterexample did not reproduce: %s "
                                "-> %s" % (inst["name"], f["msg"], got))
        return bool(violations) and not verbose

    done = run_all(module, instances, on_result, t0 + budget)
    if len(done) < len(instances) and not violations:
        problems.append("time budget exhausted")

    reached = {}
    for r in done.values():
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
    if not violations and not only:
        for k in getattr(mod, "REACH", []):
            if not reached.get(k):
                problems.append("vacuous: %s never reached" % k)

    # agreement of the symbolic runs with the unmodified code
    cases, expect = [], []
    if not violations:
        for i, inst in enumerate(instances):
            for s in done.get(i, {}).get("samples", []):
                cases.append({"module": module, "fn": inst["fn"],
                              "params": inst.get("params", {}),
                              "inputs": s["inputs"]})
                expect.append((inst["name"], s["notes"]))
        got = replay(cases) if cases else []
        for (name, notes), g, c in zip(expect, got, cases):
            if g["status"] != "ok" or g["notes"] != json.loads(
                    json.dumps(notes)):
                problems.append(
                    "%s: symbolic run and real run disagree: %s\n real %s\n"
                    " inputs %s" % (name, json.dumps(notes)[:600],
                                    json.dumps(g)[:900],
                                    json.dumps(c["inputs"])[:600]))
    total = {}
    fns = set()
    for r in done.values():
        fns.update(r["functions"])
        for k, v in r["stats"].items():
            total[k] = total.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in done.values()),
            "transitions": int(total.get("decisions", 0)),
            "traces_validated_against_impl": len(cases),
            "samples": [dict(c, instance=e[0], observed=e[1])
                        for c, e in list(zip(cases, expect))[:3]],
            "obligations": int(total.get("obligations", 0)),
            "discharged": int(total.get("discharged", 0)),
            "feasibility_queries": int(total.get("feasibility_queries", 0)),
            "solver_seconds": round(total.get("solver_s", 0), 2),
            "paths_completed": sum(r["completed"] for r in done.values()),
            "paths_cut_by_assumptions": sum(
                r["aborted"] for r in done.values()),
            "functions_encoded": sorted(fns),
            "bounds": [{"instance": i["name"], "bound": i.get("bound", ""),
                        "paths": done.get(n, {}).get("paths")}
                       for n, i in enumerate(instances)],
            "witnesses_reached": reached,
            "explanation": "states are explored program paths of the real "
                           "kiel source (each stands for every input value "
                           "satisfying its path condition); transitions are "
                           "solver-decided branch decisions",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    if not only:
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
            json.dump(ev, f, indent=1)
    code = 0
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        v = violations[0]
        path = "%s/evidence/%s-replay.json" % (VERIF, prop)
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("counterexample (%s): %s" % (v["instance"], v["message"]))
        print("inputs: %s" % json.dumps(v["inputs"])[:2000])
        print("real code: %s" % json.dumps(v["observed"])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif problems:
        for p in problems:
            print("INCONCLUSIVE %s" % p)
        code = 2
    print("%s %s: %d paths, %d decisions, %d obligations, %.1fs" % (
        prop, {0: "holds within bounds", 1: "VIOLATED",
               2: "no verdict"}[code], ev["coverage"]["states"],
        ev["coverage"]["transitions"], ev["coverage"]["obligations"],
        ev["wall_s"]))
    sys.exit(code)


def load_known(prop):
    try:
        with open(VERIF + "/known_findings.json") as f:
            return [k for k in json.load(f)["findings"]
                    if k["property"] == prop]
    except IOError:
        return []


if __name__ == "__main__":
    main()
