"""Exploration of one harness, replay of its counterexamples and witnesses."""
import importlib
import json
import math
import os
import random
import subprocess
import sys
import tempfile
import shutil
import time
import traceback
from . import ctx as ctxmod


def _sample(i, rng):
    """a realistic value of an input"""
    if i.isint:
        return rng.randint(int(i.lo), int(i.hi))
    lo, hi = i.prefer or (0.1, 10.0)
    if rng.random() < 0.1:
        x = float(round(lo + (hi - lo) * rng.random()))
    elif lo > 0 and hi / lo > 30:
        x = math.exp(math.log(lo) + math.log(hi / lo) * rng.random())
    else:
        x = lo + (hi - lo) * rng.random()
    if i.lo is not None and x <= i.lo or i.hi is not None and x >= i.hi:
        x = lo + (hi - lo) * rng.random()
    return x


def _conv(e, m):
    """input values of a model as floats"""
    a = {}
    for i, _ in e.inputs.values():
        x = m.get(i.name)
        if x is None:
            return None
        a[i.name] = x[0] // x[1] if i.isint else x[0] / x[1]
    a.update(e.choices)
    return a


def assignments(e, neg, model, rng, count, seconds=8.0):
    """input assignments that satisfy path & neg, realistic ones first"""
    import z3
    from .core import rv, frac, z3vars
    from .evalf import holds
    from . import solve

    inputs = [i for i, _ in e.inputs.values()]
    names = {i.name for i in inputs}
    conds = list(e.path) + list(neg)
    t_end = time.time() + seconds
    seen = set()

    def new(a):
        k = json.dumps(a, sort_keys=True)
        if k in seen:
            return False
        seen.add(k)
        return True

    # 1. samples at which the path is taken (and the check fails)
    n = 0
    for k in range(400):
        if time.time() > t_end or n >= count:
            break
        a = {i.name: _sample(i, rng) for i in inputs}
        if holds(e, a, conds) is not False:
            a.update(e.choices)
            if new(a):
                n += 1
                yield a
        if not inputs:
            break
    # 2. models of the solver
    if model:
        a = _conv(e, model)
        if a and new(a):
            yield a
    if n >= count:
        return
    cons = list(e.axioms) + conds
    simple = [c for c in cons if z3vars(c) <= names]
    prefs = []
    for i in inputs:
        if i.prefer is not None and not i.isint:
            prefs.append(z3.And(i.var >= rv(frac(float(i.prefer[0]))), i.var <= rv(frac(float(i.prefer[1])))))
    ins = [(i.name, i.var) for i in inputs]

    def attempt(cs, extra, secs):
        r, m = solve.solve(cs + extra, secs, None, ins, e.seed)
        return _conv(e, m) if r == "sat" and m else (False if r == "unsat" else None)

    def boxes():
        extra = []
        for i in inputs:
            if i.isint or rng.random() > 0.6:
                continue
            lo, hi = i.prefer or (0.1, 10.0)
            x = lo + (hi - lo) * rng.random()
            w = (hi - lo) * (0.02 if rng.random() < 0.5 else 0.25)
            extra.append(z3.And(i.var >= rv(frac(round(x - w, 9))), i.var <= rv(frac(round(x + w, 9)))))
        return extra

    usable = None
    for cs in ([simple, cons] if len(simple) < len(cons) else [cons]):
        a = attempt(cs, prefs, 2.0)
        ok = prefs
        if a is False:
            ok = []
            for q in prefs:
                if time.time() > t_end:
                    break
                if attempt(cs, ok + [q], 0.5):
                    ok.append(q)
            a = attempt(cs, ok, 2.0)
        if a and new(a):
            n += 1
            yield a
        tries = 0
        while n < count and tries < count and time.time() < t_end:
            tries += 1
            a = attempt(cs, ok + boxes(), 0.5)
            if a and new(a):
                n += 1
                yield a


class Replayer:
    """runs harnesses on the real code in a separate process"""

    def __init__(self, prop, name, tier):
        self.args = (prop, name, tier)
        self.proc = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env["PYTHONPATH"] = here
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.proc = subprocess.Popen(
            [sys.executable, "-m", "symx.replay"] + list(self.args),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=here,
        )

    def run(self, assignment):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        self.n += 1
        try:
            self.proc.stdin.write(json.dumps(assignment) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
            return json.loads(line)
        except (BrokenPipeError, ValueError, OSError):
            self.proc = None
            return {"status": "error", "detail": "replay process died"}

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()


def trace_functions(prefix):
    """names of the package functions that are executed"""
    seen = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if f.startswith(prefix):
            seen.add(os.path.relpath(f, os.path.dirname(prefix)) + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def load_harnesses(prop):
    m = importlib.import_module("harness." + prop.lower())
    return m


def run_harness(prop, name, tier, seed, deadline):
    from . import core, prove, shims

    mod = load_harnesses(prop)
    h = mod.HARNESSES[name]
    fn = h["fn"]
    opts = dict(h)
    patience = float(os.environ.get("SYMX_PATIENCE", "1"))
    timeout = opts.get("timeout", 10.0) * (2 if tier == "thorough" else 1) * patience
    engine = core.Engine(seed=seed, feas_timeout=int(opts.get("feas_ms", 1500) * patience))
    prover = prove.Prover(engine, timeout=timeout, cross=tier == "thorough")
    funcs = trace_functions(os.path.join(os.path.realpath(ctxmod.REPO), "ries"))
    rng = random.Random(seed)
    rep = Replayer(prop, name, tier)
    res = {
        "harness": name, "paths": 0, "infeasible": 0, "checks": 0, "discharged": 0, "witnesses": 0, "witness_skipped": 0,
        "violations": [], "inconclusive": [], "models": [], "tags": [], "exceptions": 0, "samples": [],
    }
    models, tags = set(), set()
    tmp = tempfile.mkdtemp(prefix="symx-")
    max_wit = opts.get("witnesses", 12)
    cur = {}

    def body(e):
        c = ctxmod.Symbolic(e, prover, tier, opts.get("params"), tmp)
        cur["ctx"] = c
        cur["exc"] = None
        e.used_models = set()
        e.concrete_checks = 0
        import warnings

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                fn(c)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(ctxmod.REPO) + os.sep)]
            cur["exc"] = (ex, where[-1] if where else tb[-1], bool(where), "".join(traceback.format_exception(ex)))

    def replay(label, detail, neg, e, model=None, count=8):
        """search a model that violates the check on the real code"""
        out = None
        for a in assignments(e, neg, model, rng, count, seconds=opts.get("model_s", 10.0)):
            r = rep.run(a)
            if r["status"] == "violated":
                return {"label": label, "detail": detail, "observed": r.get("label"), "assignment": a}
            out = r
        return out

    try:
        for status, exc in engine.explore(body, max_paths=opts.get("max_paths", 3000), deadline=deadline):
            e = engine
            if status == "infeasible":
                res["infeasible"] += 1
                continue
            res["paths"] += 1
            if status == "budget":
                res["inconclusive"].append("budget: %s" % exc)
                # still replay a witness below
            models |= e.used_models
            tags |= cur["ctx"].tags if "ctx" in cur else set()
            res["checks"] += e.checks
            res["discharged"] += e.discharged
            stop = False
            if status == "unsupported":
                found = replay("unsupported", str(exc), [], e)
                if found and "assignment" in found:
                    res["violations"].append(found)
                    break
                res["inconclusive"].append("unsupported: %s" % exc)
                continue
            if status == "budget":
                break
            if cur["exc"] is not None:
                ex, fr, inrepo, text = cur["exc"]
                res["exceptions"] += 1
                lab = "%s: %s (%s:%d)" % (type(ex).__name__, ex, os.path.basename(fr.filename), fr.lineno)
                found = replay("exception " + lab, "unexpected exception", [], e)
                if found and "assignment" in found:
                    res["violations"].append(found)
                    break
                if prover.refute([])[0] == "unsat":
                    res["infeasible"] += 1
                    continue
                res["inconclusive"].append("exception not reproduced: " + text[-1500:])
                continue
            if e.candidates and prover.refute([])[0] == "unsat":
                res["infeasible"] += 1
                res["discharged"] += e.checks - e.discharged
                continue
            for label, detail, neg, model in e.candidates:
                found = replay(label, detail, neg, e, model)
                if found and "assignment" in found:
                    res["violations"].append(found)
                    stop = True
                    break
                res["inconclusive"].append("%s: %s, not reproduced (%s)" % (label, detail, found))
            if stop:
                break
            if len(res["inconclusive"]) >= 6:
                break
            if res["witnesses"] < max_wit:
                got = False
                for a in assignments(e, [], None, rng, 1, seconds=3.0):
                    r = rep.run(a)
                    got = True
                    if r["status"] == "violated":
                        res["violations"].append({"label": "witness", "detail": "real code at a path witness", "observed": r.get("label"), "assignment": a})
                        stop = True
                        break
                    elif r["status"] == "ok":
                        res["witnesses"] += 1
                        if len(res["samples"]) < 3:
                            res["samples"].append(a)
                        break
                    elif r["status"] == "assume":
                        res["witness_skipped"] += 1
                    else:
                        res["inconclusive"].append("replay: %s" % r)
                if not got:
                    res["witness_skipped"] += 1
            if stop:
                break
    finally:
        rep.close()
        shutil.rmtree(tmp, ignore_errors=True)
    st = engine.stats
    missing = set(opts.get("reach", ())) - tags
    if not res["violations"]:
        if missing:
            res["inconclusive"].append("vacuous: not reached %s" % sorted(missing))
        if res["checks"] == 0 and not res["inconclusive"]:
            res["inconclusive"].append("vacuous: no check evaluated")
        if res["witnesses"] == 0 and not res["inconclusive"] and not opts.get("no_witness"):
            res["inconclusive"].append("vacuous: no path witness satisfies the preconditions")
    res.update(
        models=sorted(models), tags=sorted(tags), functions=sorted(funcs), queries=st.queries, feasibility_queries=st.feas_queries,
        solver_s=round(st.solver_s, 3), decisions=st.decisions, stages=st.by_stage, unsat=st.unsat, sat=st.sat, unknown=st.unknown,
        cross=prover.cross_log, raw=prover.raw_log, bounds=opts.get("bounds", ""),
    )
    return res
