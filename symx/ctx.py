"""Harness contexts: the same harness runs symbolically or on concrete values."""
import contextlib
import importlib
import json
import math
import os
import random
import re
import shutil
import sys
import tempfile
import traceback
import warnings
import numpy as np
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")


class AssumeFailed(Exception):
    """concrete mode: the inputs do not satisfy the preconditions"""


class CheckFailed(Exception):
    pass


def flat(x):
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    return [x]


def known_findings():
    """{(property, key): text} recorded as known"""
    out = {}
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    out[m.group(1), m.group(2)] = m.group(3)
    return out


class Base:
    symbolic = False

    def __init__(self, tier="quick", params=None):
        self.tier = tier
        self.params = params or {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def known(self, prop, key, ok, label):
        """a check that fails in a way recorded as a known finding"""
        if not ok and (prop, key) in known_findings():
            self.reached("known:" + key)
            return
        self.check(ok, label)

    def pos(self, name, prefer=(0.1, 10.0), hi=None):
        return self.real(name, 0, hi, prefer=prefer)

    def numbers(self, msg):
        """numbers that appear in a message"""
        raise NotImplementedError

    def eqs(self, a, b, label, **k):
        """elementwise equality of two sequences of the same length"""
        a, b = flat(a), flat(b)
        self.check(len(a) == len(b), label + " (length %d, expected %d)" % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(x, y, "%s[%d]" % (label, i), **k)

    @contextlib.contextmanager
    def catch(self):
        """records warnings of category UserWarning"""
        out = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            yield out
        out.extend(x for x in w if issubclass(x.category, UserWarning))

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)

    def prod(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r


# ---------------------------------------------------------------------------
class Concrete(Base):
    """plain floats, real libraries, real package"""

    def __init__(self, assignment, tier="quick", params=None, rtol=1e-7):
        Base.__init__(self, tier, params)
        self.a = assignment
        self.rtol = rtol
        self.np = np
        self.pi = math.pi
        self._tmp = None
        self.failed = []
        self.checked = 0
        import scipy.stats
        import scipy.special

        self.norm, self.cauchy, self.uniform = scipy.stats.norm, scipy.stats.cauchy, scipy.stats.uniform
        self.voigt_profile = scipy.special.voigt_profile

    _restore = None

    def close(self):
        if self._restore:
            self._restore()
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # inputs
    def _get(self, name, default):
        return self.a.get(name, default)

    def real(self, name, lo=None, hi=None, strict=True, prefer=(0.1, 10.0)):
        v = self._get(name, None)
        if v is None:
            v = 0.5 * (prefer[0] + prefer[1])
        v = float(v)
        if lo is not None and (v < lo or (strict and v <= lo)):
            raise AssumeFailed(name)
        if hi is not None and (v > hi or (strict and v >= hi)):
            raise AssumeFailed(name)
        return v

    def int_(self, name, lo, hi):
        return int(self._get(name, lo))

    def choice(self, name, options):
        return options[int(self._get(name, 0))]

    def digit(self, name):
        return str(int(self._get(name, 1)))

    def digits(self, name, n):
        return "".join(self.digit("%s.%d" % (name, i)) for i in range(n))

    def num(self, s):
        return float(s)

    def array(self, xs):
        return np.array(list(xs), dtype=float)

    def int_array(self, xs):
        return np.array(list(xs), dtype=int)

    def array2(self, rows):
        return np.array([list(r) for r in rows], dtype=float)

    def file(self, text, name="table.txt"):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="symx-")
        p = os.path.join(self._tmp, name)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p

    def mod(self, name):
        m = importlib.import_module(name)
        f = getattr(m, "__file__", None)
        if f and not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("package imported from %s instead of %s" % (f, REPO))
        return m

    # functions
    def sqrt(self, x):
        return np.sqrt(x)

    def log(self, x):
        return np.log(x)

    def log10(self, x):
        return np.log10(x)

    def pow10(self, x):
        return 10.0 ** x

    def exp(self, x):
        return np.exp(x)

    def cos(self, x):
        return np.cos(x)

    def sin(self, x):
        return np.sin(x)

    def root5(self, x):
        return x ** 0.2

    def quad(self, f, a, b):
        from scipy.integrate import quad

        return quad(f, a, b, epsabs=0, epsrel=1e-10, limit=200)[0]

    def numbers(self, msg):
        return [float(x) for x in re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?|-?inf|nan", str(msg))]

    # verdicts
    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def lemma(self, c):
        pass

    def check(self, c, label):
        self.checked += 1
        if not bool(c):
            raise CheckFailed(label)

    def eq(self, a, b, label, rtol=None, atol=0.0):
        self.checked += 1
        try:
            x, y = float(a), float(b)
        except (TypeError, ValueError):
            raise CheckFailed("%s: %r instead of %r" % (label, a, b))
        if x == y:
            return
        r = max(rtol or 0.0, self.rtol)
        if not (math.isfinite(x) and math.isfinite(y)) or not (abs(x - y) <= r * max(abs(x), abs(y)) + atol):
            raise CheckFailed("%s: %r instead of %r" % (label, x, y))

    def le(self, a, b, label, slack=0.0, atol=0.0):
        self.checked += 1
        x, y = float(a), float(b)
        s = (slack + 1e-9) * max(abs(x), abs(y)) + atol if not (math.isinf(x) or math.isinf(y)) else 0.0
        if not (x <= y + s):
            raise CheckFailed("%s: %r > %r" % (label, x, y))

    def lt(self, a, b, label, atol=0.0):
        """strict in exact arithmetic, weak in floating point"""
        self.le(a, b, label, atol=atol)

    def finite(self, x, label):
        self.checked += 1
        if not math.isfinite(float(x)):
            raise CheckFailed("%s: %r" % (label, x))

    def isinf(self, x):
        return math.isinf(float(x))

    def isnan(self, x):
        return math.isnan(float(x))

    def table_index(self, name, n):
        return int(self._get(name, 0))

    def lookup(self, values, i):
        return values[i]

    def table_eq(self, a, b, i, label, rtol=1e-9):
        self.eq(a[i], b[i], label, rtol=rtol)

    @contextlib.contextmanager
    def concretely(self):
        yield

    def reached(self, name):
        pass

    def any(self, conds):
        return any(bool(x) for x in conds)

    def all(self, conds):
        return all(bool(x) for x in conds)

    def saturating(self, on=True):
        pass

    def const(self, name):
        from scipy.constants import physical_constants

        return physical_constants[name][0]

    def cubature(self):
        """list of the integrations done from now on: (limits, integral, estimate of the uncertainty)"""
        import scipy.integrate as si

        calls = []
        for name in ("quad", "nquad"):
            real = getattr(si, "_symx_" + name, None) or getattr(si, name)
            setattr(si, "_symx_" + name, real)

        def nquad(func, ranges, *a, **k):
            lims = [tuple(float(x) for x in r) for r in ranges]
            r = si._symx_nquad(func, ranges, *a, **k)
            calls.append((lims, float(r[0]), float(r[1])))
            return r

        def quad(func, a, b, *args, **k):
            r = si._symx_quad(func, a, b, *args, **k)
            calls.append(([(float(a), float(b))], float(r[0]), float(r[1])))
            return r

        si.nquad, si.quad = nquad, quad
        self._restore = lambda: (setattr(si, "nquad", si._symx_nquad), setattr(si, "quad", si._symx_quad))
        return calls

    def newton_converges(self):
        pass

    def newton_starts(self):
        pass

    def decimal_logarithms(self):
        pass

    def newton_failed(self):
        return not all(self._newton_ok)

    def inject_newton(self):
        """root finder whose convergence per call and element is an input"""
        import scipy.optimize as so

        real = getattr(so, "_symx_real_newton", None) or so.newton
        so._symx_real_newton = real
        state = {"k": 0}
        self._newton_ok = seen = []
        get = self._get

        def root(f, x0):
            w = max(abs(x0), 1e-3) * 1e-3
            for _ in range(400):
                if f(x0 - w) <= 0 <= f(x0 + w):
                    return so.brentq(f, x0 - w, x0 + w, xtol=1e-300, rtol=8.9e-16, maxiter=500)
                w *= 2
            raise AssumeFailed("no root")

        def newton(func, x0, fprime=None, args=(), tol=1.48e-8, maxiter=50, fprime2=None, x1=None, rtol=0.0, full_output=False, disp=True):
            k = state["k"]
            state["k"] += 1
            if np.size(x0) > 1:
                x0 = np.asarray(x0, dtype=float)
                n = x0.size
                flags = np.array([bool(int(get("newton%d.%d" % (k, i), 1))) for i in range(n)])
                seen.extend(bool(f) for f in flags)
                if not flags.any():
                    raise RuntimeError("all failed to converge after 50 iterations")
                r = np.array([x0[i] + 0.1 for i in range(n)])
                for i in range(n):
                    if flags[i]:
                        r[i] = root(lambda t: func(np.full(n, t), *args)[i], x0[i])
                if not flags.all():
                    warnings.warn("some failed to converge after 50 iterations", RuntimeWarning)
                import collections

                T = collections.namedtuple("result", ("root", "converged", "zero_der"))
                return T(r, flags, np.zeros(n, dtype=bool)) if full_output else r
            flag = bool(int(get("newton%d" % k, 1)))
            seen.append(flag)
            if not flag:
                if disp:
                    raise RuntimeError("Failed to converge after 50 iterations")
                r = np.asarray(x0)[()] + 0.1
            elif np.ndim(x0):
                r = np.array([root(lambda t: func(np.full(1, t), *args)[0], float(np.asarray(x0)[0]))])
            else:
                r = root(lambda t: func(t, *args), float(x0))
            res = so.RootResults(root=r, iterations=5, function_calls=5, flag=0 if flag else -2, method="newton")
            return (r, res) if full_output else r

        so.newton = newton
        self._restore = lambda: setattr(so, "newton", real)


# ---------------------------------------------------------------------------
class Symbolic(Base):
    symbolic = True

    def __init__(self, engine, prover, tier="quick", params=None, tmp=None):
        Base.__init__(self, tier, params)
        from . import core, models, shims

        self.core, self.models, self.shims = core, models, shims
        self.e = engine
        self.p = prover
        self.np = shims.NP
        self.pi = engine.pi
        self.norm, self.cauchy, self.uniform = models.norm, models.cauchy, models.uniform
        self.voigt_profile = models.voigt_profile
        self.loader = shims.Loader(REPO)
        self.tmp = tmp
        self.tags = set()
        self.bounds = {}

    # inputs
    def real(self, name, lo=None, hi=None, strict=True, prefer=(0.1, 10.0)):
        return self.e.real(name, lo, hi, strict, prefer)

    def int_(self, name, lo, hi):
        return self.e.real(name, lo, hi, False, (lo, hi), isint=True)

    def choice(self, name, options):
        if len(options) == 1:
            self.e.choices[name] = 0
            return options[0]
        return options[self.e.choose_input(name, len(options))]

    def digit(self, name):
        return self.shims.new_digit(self.e, name)

    def digits(self, name, n):
        return "".join(self.digit("%s.%d" % (name, i)) for i in range(n))

    def num(self, s):
        return self.core.lift(self.shims.parse_float(s))

    def array(self, xs):
        xs = list(xs)
        r = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            r[i] = x
        return self.shims.asym(r)

    def int_array(self, xs):
        r = self.array(xs)
        r.kind = "i"
        return r

    def array2(self, rows):
        return self.shims.asym(self.shims._build([list(r) for r in rows]))

    def file(self, text, name="table.txt"):
        p = os.path.join(self.tmp, name)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p

    def mod(self, name):
        return self.loader.load(name)

    # functions
    def _l(self, x):
        return self.core.lift(x)

    def sqrt(self, x):
        return self.e.root(self._l(x), 2)

    def root5(self, x):
        return self.e.root(self._l(x), 5)

    def log(self, x):
        return self.e.log(self._l(x))

    def log10(self, x):
        return self.e.log10(self._l(x))

    def pow10(self, x):
        return self.e.pow10(self._l(x))

    def exp(self, x):
        return self.e.exp(self._l(x))

    def cos(self, x):
        return self.e.trig(self._l(x))[0]

    def sin(self, x):
        return self.e.trig(self._l(x))[1]

    def quad(self, f, a, b):
        return self.models.quad_value(f, [(a, b)])

    def numbers(self, msg):
        out = []
        for m in re.finditer(r"⟦(\d+)⟧|-?\d+\.?\d*(?:[eE][-+]?\d+)?|-?inf|nan", str(msg)):
            out.append(self.e.tokens[int(m.group(1))] if m.group(1) else float(m.group(0)))
        return out

    # verdicts
    def assume(self, c):
        self.e.assume(c)

    def lemma(self, c):
        """a mathematical fact about the specification, added as an axiom"""
        if type(c) is self.core.SymBool:
            self.e.axiom(c.e)

    def reached(self, name):
        self.tags.add(name)

    def saturating(self, on=True):
        self.e.saturating = on

    def _fail(self, label, detail, neg=(), model=None):
        self.e.candidates.append((label, detail, list(neg), model))

    def check(self, c, label):
        e = self.e
        e.checks += 1
        if type(c) is self.core.SymReal:
            c = c != 0
        if type(c) is not self.core.SymBool:
            if not c:
                self._fail(label, "false on this path")
            else:
                e.discharged += 1
                e.concrete_checks += 1
            return
        z3 = self.core.z3
        r, m = self.p.refute([z3.Not(c.e)])
        if r == "unsat":
            e.discharged += 1
        elif r == "sat":
            self._fail(label, "violated", [z3.Not(c.e)], m)
        else:
            e.undecided.append(label)
            self._fail(label, "undecided", [z3.Not(c.e)])

    def _special_pair(self, a, b, label):
        """True if handled"""
        core = self.core
        sa, sb = core.special(a), core.special(b)
        if sa or sb:
            self.e.checks += 1
            if sa and sb and float(a) == float(b):
                self.e.discharged += 1
            else:
                self._fail(label, "%r instead of %r" % (a, b))
            return True
        for v in (a, b):
            if v is None or not (core.is_sym(v) or core.is_num(v) or (isinstance(v, np.ndarray) and v.ndim == 0)):
                self.e.checks += 1
                self._fail(label, "%r is not a number" % (type(v).__name__,))
                return True
        return False

    def eq(self, a, b, label, rtol=1e-9, atol=0.0):
        rtol = rtol or 1e-9
        if isinstance(a, np.ndarray) and a.size == 1 and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.size == 1 and b.ndim == 0:
            b = b.item()
        if self._special_pair(a, b, label):
            return
        core, e = self.core, self.e
        z3 = core.z3
        a, b = core.lift(a), core.lift(b)
        e.checks += 1
        if z3.eq(a.e, b.e):
            r, _ = self.p.refute([a.e != b.e])
            if r == "unsat":
                e.discharged += 1
                return
        p = self.p.eq_polynomial(a, b)
        from . import poly

        if p is not None and (not p or not any(m for m in p)):
            c = p.get((), Fraction(0)) if p else Fraction(0)
            r, _ = self.p.refute([core.rv(c) != 0])
            if r == "unsat":
                self.p._stage("normal form")
                e.discharged += 1
                if self.p.cross:
                    self.p.cross_raw(a.e != b.e)
                return
        if p is not None and self.p.by_equation(p):
            e.discharged += 1
            return
        if p is not None and len(p) < 60:
            r, m = self.p.refute([poly.to_z3(p) != 0], quick=True)
            if r == "unsat":
                e.discharged += 1
                return
        r, m = self.p.refute([a.e != b.e], quick=(rtol > 0))
        if r == "unsat":
            e.discharged += 1
            return
        # margins: a violation that is visible in floating point first
        d = z3.If(a.e >= b.e, a.e - b.e, b.e - a.e)
        mag = z3.If(b.e >= 0, b.e, -b.e)
        tried = []
        for mg in (0.02, 1e-4, 1e-6, rtol):
            if mg < rtol:
                continue
            neg = [d > core.rv(core.frac(mg)) * mag + core.rv(core.frac(max(atol, 0.0)))]
            last = mg == rtol
            r, m = self.p.refute(neg, quick=not last)
            tried.append((mg, r))
            if r == "unsat" and last:
                e.discharged += 1
                return
            if r == "sat":
                self._fail(label, "differs by more than %g" % mg, neg, m)
                return
        if tried[-1][1] == "unknown":
            e.undecided.append(label)
            self._fail(label, "undecided", [a.e != b.e])

    def le(self, a, b, label, slack=1e-9, atol=0.0):
        core, e = self.core, self.e
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if core.special(a) or core.special(b):
            e.checks += 1
            x = a if core.special(a) else 0.0
            y = b if core.special(b) else 0.0
            if x <= y:
                e.discharged += 1
            else:
                self._fail(label, "%r > %r" % (a, b))
            return
        if self._special_pair(a, b, label):
            return
        z3 = core.z3
        a, b = core.lift(a), core.lift(b)
        e.checks += 1
        if a.const is not None and b.const is not None:
            if a.const <= b.const * (1 + core.frac(slack) * (1 if b.const > 0 else -1)) + core.frac(atol):
                e.discharged += 1
                e.concrete_checks += 1
            else:
                self._fail(label, "%s > %s" % (float(a.const), float(b.const)))
            return
        r, m = self.p.refute([a.e > b.e])
        if r == "unsat":
            e.discharged += 1
            return
        first = r
        mag = z3.If(b.e >= 0, b.e, -b.e) + z3.If(a.e >= 0, a.e, -a.e)
        for mg in (0.02, 1e-4, 1e-6, slack):
            neg = [a.e > b.e + core.rv(core.frac(mg)) * mag + core.rv(core.frac(atol))]
            r, m = self.p.refute(neg, quick=mg != slack)
            if r == "sat":
                self._fail(label, "violated by more than %g" % mg, neg, m)
                return
        if r == "unsat":
            e.discharged += 1
            return
        e.undecided.append(label)
        self._fail(label, "undecided", [a.e > b.e])

    def lt(self, a, b, label, atol=0.0):
        core, e = self.core, self.e
        if core.special(a) or core.special(b):
            return self.le(a, b, label)
        if self._special_pair(a, b, label):
            return
        r = core.lift(a) < b
        if type(r) is core.SymBool:
            e.checks += 1
            v, m = self.p.refute([core.z3.Not(r.e)])
            if v == "unsat":
                e.discharged += 1
                return
            # only equality possible?  then it is a matter of rounding
            e.checks -= 1
            return self.check(core.lift(a) < b, label)
        self.check(r, label)

    def finite(self, x, label):
        self.check(not self.core.special(x) and (self.core.is_sym(x) or self.core.is_num(x)), label)

    def isinf(self, x):
        return self.core.special(x) and x == x

    def isnan(self, x):
        if isinstance(x, np.ndarray):
            x = x.item()
        return bool(self.core.special(x) and x != x)

    def table_index(self, name, n):
        """symbolic index 0..n-1 that is never concretised"""
        return self.e.real(name, 0, n - 1, False, (0, n - 1), isint=True)

    def lookup(self, values, i):
        """values[i] for a symbolic index, as a term"""
        core = self.core
        z3 = core.z3
        terms = [core.lift(v).e for v in values]

        def tree(a, b):
            if b - a == 1 or all(z3.eq(t, terms[a]) for t in terms[a + 1:b]):
                return terms[a]
            m = (a + b) // 2
            return z3.If(i.e < m, tree(a, m), tree(m, b))

        return core.SymReal(tree(0, len(terms)))

    def table_eq(self, a, b, i, label, rtol=1e-9):
        """a[i] == b[i] within rtol for every index"""
        core = self.core
        z3 = core.z3
        t = core.rv(core.frac(rtol))
        rows = []
        for k, (x, y) in enumerate(zip(a, b)):
            if core.special(x) or core.special(y):
                rows.append(z3.Implies(i.e == k, z3.BoolVal(x == y)))
                continue
            x, y = core.lift(x).e, core.lift(y).e
            mag = z3.If(y >= 0, y, -y)
            rows.append(z3.Implies(i.e == k, z3.And(x - y <= t * mag, y - x <= t * mag)))
        self.check(core.SymBool(z3.And(rows)), label)

    @contextlib.contextmanager
    def concretely(self):
        """functions of plain numbers are evaluated in floating point"""
        old, self.e.loading = self.e.loading, "concrete"
        try:
            yield
        finally:
            self.e.loading = old

    def _bools(self, conds):
        z3 = self.core.z3
        return [x.e if type(x) is self.core.SymBool else z3.BoolVal(bool(x)) for x in conds]

    def any(self, conds):
        return self.core.SymBool(self.core.z3.Or(self._bools(conds)))

    def all(self, conds):
        return self.core.SymBool(self.core.z3.And(self._bools(conds)))

    def const(self, name):
        from scipy.constants import physical_constants

        return self.core.lift(float(physical_constants[name][0]))

    def cubature(self):
        """integrals by Simpson's rule, which is exact for integrands of third degree in each variable"""
        e = self.e
        lift = self.core.lift
        calls = []

        def integral(f, lims, at):
            if not lims:
                return lift(f(*at))
            # the last variable is the outermost one
            a, b = (lift(x) for x in lims[-1])
            m = (a + b) / 2
            s = [integral(f, lims[:-1], (t,) + at) for t in (a, m, b)]
            return (b - a) / 6 * (s[0] + s[1] * 4 + s[2])

        def hook(f, lims, args):
            v = integral(lambda *t: f(*t, *args), lims, ())
            err = e.real("err%d" % len(calls), 0, None, False, (0.0, 1.0))
            calls.append(([tuple(l) for l in lims], v, err))
            return v, err

        e.nquad_hook = hook
        return calls

    def newton_converges(self):
        self.e.newton_always = True

    def newton_starts(self):
        """iterations end at starting points which are roots; otherwise they may fail"""
        self.e.newton_start = True

    def decimal_logarithms(self):
        """natural ones are expressed by decimal ones"""
        self.e.decimal = True

    def inject_newton(self):
        pass

    def newton_failed(self):
        """did any inversion fail so far?"""
        return not all(all(f) for f in self.e.newton_flags)
