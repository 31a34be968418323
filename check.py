#!/opt/venv/bin/python
"""Decides one property:  check.py C01 [quick|thorough]   or   check.py --replay FILE

exit 0: held for all values within the bounds, exit 1: violated (replayed on the
real code), exit 2: no answer.
"""
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def replay(path):
    from symx.replay import run_one

    with open(path) as f:
        d = json.load(f)
    r = run_one(d["property"], d["harness"], d["tier"], d["assignment"], verbose=True)
    print(json.dumps(r, indent=1))
    return 1 if r["status"] == "violated" else 0


def selftest():
    """the tools are there and agree on a small query"""
    from symx import core, solve  # noqa: F401
    import z3

    s = z3.Solver()
    x = z3.Real("x")
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    r = subprocess.run(["cvc5", "--lang", "smt2", "-"], input="(set-logic QF_NRA)\n" + s.to_smt2(), capture_output=True, text=True)
    assert r.stdout.strip() == "unsat", r
    from symx.ctx import REPO

    assert os.path.isdir(os.path.join(REPO, "ries"))
    print("z3", z3.get_version_string(), "cvc5 ok; code under test:", REPO)
    return 0


def retry(results, queue, again, env, time_left):
    """harnesses without an answer get a second run with more time per query, e.g. if the machine was busy"""
    if again or not time_left or any(r.get("violations") for r in results):
        return False
    again.update(r["harness"] for r in results if "error" not in r and any("undecided" in i or i.startswith(("budget", "vacuous", "exception not")) for i in r["inconclusive"]))
    results[:] = [r for r in results if r["harness"] not in again]
    queue.extend(sorted(again))
    env["SYMX_PATIENCE"] = "4"
    return bool(queue)


def main():
    if sys.argv[1] == "--selftest":
        return selftest()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    import importlib

    mod = importlib.import_module("harness." + prop.lower())
    names = [n for n, h in mod.HARNESSES.items() if (tier == "thorough" or not h.get("thorough_only")) and (only is None or n in only)]
    ncpu = max(2, min(8, os.cpu_count() or 2))
    limit = 600 if tier == "quick" else 2400
    tmp = tempfile.mkdtemp(prefix="symx-check-")
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    env["TMPDIR"] = tmp
    queue = list(names)
    running = {}
    results = []
    again = set()
    try:
        while queue or running or retry(results, queue, again, env, time.time() - t0 < 0.5 * limit):
            while queue and len(running) < ncpu:
                n = queue.pop(0)
                out = os.path.join(tmp, n + ".json")
                log = open(os.path.join(tmp, n + ".log"), "w")
                secs = mod.HARNESSES[n].get("budget", 300) * (3 if tier == "thorough" or n in again else 1)
                p = subprocess.Popen([sys.executable, "-m", "symx.worker", prop, n, tier, str(seed), str(secs), out], cwd=HERE, env=env, stdout=log, stderr=log)
                running[n] = (p, out, log, time.time())
            time.sleep(0.05)
            for n in list(running):
                p, out, log, ts = running[n]
                if p.poll() is None and time.time() - t0 > limit:
                    p.kill()
                    p.wait()
                    results.append({"harness": n, "error": "time limit of %d s" % limit})
                    del running[n]
                    continue
                if p.poll() is not None:
                    log.close()
                    if os.path.exists(out):
                        with open(out) as f:
                            results.append(json.load(f))
                    else:
                        with open(log.name) as f:
                            results.append({"harness": n, "error": "worker died: " + f.read()[-2000:]})
                    del running[n]
    finally:
        for p, *_ in running.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return report(prop, tier, seed, mod, results, time.time() - t0)


def report(prop, tier, seed, mod, results, wall):
    from symx.assumptions import ASSUMPTIONS

    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    viol, inc = [], []
    results.sort(key=lambda r: r["harness"])
    for r in results:
        if "error" in r:
            inc.append("%s: %s" % (r["harness"], r["error"]))
            continue
        for v in r["violations"]:
            viol.append(dict(v, harness=r["harness"]))
        for i in r["inconclusive"]:
            inc.append("%s: %s" % (r["harness"], i))
    lines = []
    for k, v in enumerate(viol):
        path = os.path.join(ev, "replay-%s-%s.json" % (prop, v["harness"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, **v, "how": "check.py --replay <this file>"}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s [%s] -> real code: %s" % (v["harness"], v["label"], v["detail"], v["observed"]))
    good = [r for r in results if "error" not in r]

    def tot(k):
        return sum(r.get(k, 0) for r in good)

    models = sorted({m for r in good for m in r["models"]})
    stages = {}
    for r in good:
        for k, n in r["stages"].items():
            stages[k] = stages.get(k, 0) + n
    cross = [x for r in good for x in r.get("cross", [])]
    raw = [x for r in good for x in r.get("raw", [])]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": max(1, tot("paths")),
            "transitions": max(1, tot("decisions")),
            "traces_validated_against_impl": tot("witnesses"),
            "samples": [s for r in good for s in r["samples"]][:12],
            "symbolic_paths": tot("paths"),
            "infeasible_paths": tot("infeasible"),
            "checks": tot("checks"),
            "checks_discharged": tot("discharged"),
            "queries": tot("queries"),
            "feasibility_queries": tot("feasibility_queries"),
            "verdicts": {k: tot(k) for k in ("unsat", "sat", "unknown")},
            "discharged_by": stages,
            "solver_s": round(tot("solver_s"), 2),
            "cross_checked_with_cvc5": {x: cross.count(x) for x in sorted(set(cross))},
            "normal_form_cross_checked_raw": {x: raw.count(x) for x in sorted(set(raw))},
            "functions_encoded": sorted({f for r in good for f in r["functions"]}),
            "harnesses": [
                {k: r.get(k) for k in ("harness", "bounds", "paths", "checks", "discharged", "queries", "solver_s", "witnesses", "tags", "wall_s")}
                for r in good
            ],
        },
        "assumptions": [ASSUMPTIONS["reals"]] + [ASSUMPTIONS[m] for m in models if m in ASSUMPTIONS] + list(getattr(mod, "ASSUME", [])),
        "violations": len(viol),
        "inconclusive": inc,
        "wall_s": round(wall, 2),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    cov = evidence["coverage"]
    print(
        "%s %s: %d harnesses, %d paths, %d/%d checks discharged, %d queries, solver %.1f s, %d traces replayed, %.1f s"
        % (prop, tier, len(results), cov["states"], cov["checks_discharged"], cov["checks"], cov["queries"], cov["solver_s"], cov["traces_validated_against_impl"], wall)
    )
    if lines:
        for l in lines:
            print(l)
        return 1
    if inc:
        for i in inc[:12]:
            print("INCONCLUSIVE " + (i if len(i) < 700 else i[:200] + " ... " + i[-500:]))
        return 2
    from symx.ctx import known_findings

    seen = {t[len("known:"):] for r in results for t in r.get("tags", ()) if t.startswith("known:")}
    for (p, key), text in known_findings().items():
        if p == prop and key in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    return 0


if __name__ == "__main__":
    sys.exit(main())
