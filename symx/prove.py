"""Deciding validity of a goal under the constraints of a path."""
import subprocess
import tempfile
import time
import os
import shutil
import z3
from .core import z3vars, rv, Fraction
from . import poly, solve

CVC5 = shutil.which("cvc5") or "/usr/bin/cvc5"


def has_nonreal(es):
    """integers or if-then-else present (nlsat cannot take them directly)"""
    seen = set()
    stack = list(es)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_TO_INT, z3.Z3_OP_TO_REAL, z3.Z3_OP_IS_INT):
                return True
        stack.extend(x.children())
    return False


class Prover:
    def __init__(self, engine, timeout=20.0, cross=False):
        self.e = engine
        self.timeout = timeout
        self.cross = cross
        self.cross_log = []
        self.raw_log = []
        self._slow = {}
        self._eqs = {}

    def _solve(self, cons, neg, ms, tactic=None):
        e = self.e
        st = e.stats
        t = time.time()
        r, m = solve.solve(list(cons) + list(neg), ms / 1000.0, tactic, self.inputs(), e.seed)
        st.solver_s += time.time() - t
        st.queries += 1
        return r, m

    def inputs(self):
        return [(i.name, i.var) for i, _ in self.e.inputs.values()]

    def slices(self, cons, neg):
        V = set()
        for n in neg:
            V |= z3vars(n)
        sub = [c for c in cons if z3vars(c) <= V]
        out = [sub]
        W = set(V)
        for c in cons:
            vs = z3vars(c)
            if vs & V:
                W |= vs
        sub2 = [c for c in cons if z3vars(c) <= W]
        if len(sub2) > len(sub):
            out.append(sub2)
        if len(cons) > len(out[-1]):
            out.append(cons)
        return out

    def refute(self, neg, extra=(), quick=False):
        """Is path & axioms & neg unsatisfiable?  -> ('unsat'|'sat'|'unknown', model)"""
        e = self.e
        orig = list(neg)
        neg = [z3.simplify(n) for n in neg]
        if any(z3.is_false(n) for n in neg):
            e.stats.queries += 1
            t = time.time()
            s = z3.Solver()
            s.add(*orig)
            if s.check() != z3.unsat:
                return "unknown", None
            e.stats.solver_s += time.time() - t
            e.stats.unsat += 1
            self._stage("simplifier")
            return "unsat", None
        neg = [n for n in neg if not z3.is_true(n)]
        cons = list(e.axioms) + list(e.path) + list(extra)
        sl = self.slices(cons, neg)
        t_end = time.time() + self.timeout
        model = None
        budgets = [0.15, 0.3, 1.0]
        for i, sub in enumerate(sl):
            last = i == len(sl) - 1
            nl = not has_nonreal(list(sub) + neg)
            left = max(0.5, t_end - time.time())
            plan = [("smt", 0.1 * self.timeout)]
            if nl:
                plan.append(("nlsat", 0.1 * self.timeout))
            if last and not quick:
                plan += [("smt", 0.4 * self.timeout)]
                if nl:
                    plan.append(("nlsat", 0.6 * self.timeout))
            for tac, budget in plan:
                r, m = self._solve(sub, neg, 1000 * budget, None if tac == "smt" else tac)
                if r == "unsat":
                    e.stats.unsat += 1
                    self._stage("%s/slice%d" % (tac, i if not last else 9))
                    if self.cross:
                        self._cross(sub, neg, "unsat")
                    return "unsat", None
                if r == "sat":
                    if last:
                        e.stats.sat += 1
                        return "sat", m
                    break
        if not quick:
            r = self._cvc5(sl[-1], neg, self.timeout)
            if r == "unsat":
                e.stats.unsat += 1
                self._stage("cvc5")
                return "unsat", None
        e.stats.unknown += 1
        return "unknown", None

    def _stage(self, n):
        d = self.e.stats.by_stage
        d[n] = d.get(n, 0) + 1

    def _cvc5(self, cons, neg, secs):
        s = z3.Solver()
        for c in list(cons) + list(neg):
            s.add(c)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t = time.time()
        try:
            p = subprocess.run([CVC5, "--lang", "smt2", "--tlimit=%d" % int(1000 * secs), "--nl-cov"], input=txt, capture_output=True, text=True, timeout=secs + 10)
            out = p.stdout.strip().splitlines()
            r = out[0] if out else "unknown"
        except (OSError, subprocess.TimeoutExpired):
            r = "unknown"
        self.e.stats.solver_s += time.time() - t
        self.e.stats.queries += 1
        return r

    def _cross(self, cons, neg, expected):
        if len(self.cross_log) >= 25:
            return
        r = self._cvc5(cons, neg, 5)
        self.cross_log.append(r)

    def cross_raw(self, neg):
        """the query before normalisation, for comparison"""
        if len(self.raw_log) >= 25:
            return
        cons = self.slices(list(self.e.axioms) + list(self.e.path), [neg])[0]
        r, _ = self._solve(cons, [neg], 3000)
        self.raw_log.append(r)

    # ------------------------------------------------------------------
    def by_equation(self, p):
        """is p a multiple of the residual of a root found on this path?"""
        for r, y, _ in self.e.newton_roots:
            key = y.e.get_id()
            hit = self._eqs.get(key)
            if hit is None or not hit[0].eq(y.e):
                hit = (y.e, self.eq_polynomial(y, y * 0))
                self._eqs[key] = hit
            q = hit[1]
            if not q or len(q) != len(p) or set(q) != set(p):
                continue
            m = next(iter(p))
            k = p[m] / q[m]
            if all(p[x] == k * q[x] for x in p):
                v, _ = self._solve([poly.to_z3(q) == 0], [poly.to_z3(p) != 0], 5000)
                if v == "unsat":
                    self.e.stats.unsat += 1
                    self._stage("residual of root")
                    return True
        return False

    def eq_polynomial(self, a, b):
        """z3 term that vanishes iff a == b, or None"""
        try:
            p = poly.difference(a.e, b.e, self.e.relations())
        except poly.TooBig:
            return None
        return p
