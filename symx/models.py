"""Axiomatised models of the scipy functions the code under test uses.

Each model returns fresh solver variables constrained by ground axioms
(congruence, monotonicity, inverse relations, ranges).  They over-approximate
the real functions; what they assume is listed in assumptions.py.
"""
import math
import types
import warnings as _warnings
import numpy as np
import z3
from . import core
from .core import SymReal, SymBool, lift, is_sym, is_num, special, eng, rv, Unsupported, Fraction


def used(name):
    eng().used_models.add(name)


# -- elementwise application ----------------------------------------------------
def elementwise(f, *args, kind=None):
    """broadcast f over array-likes"""
    if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
        return f(*args)
    from .shims import asym

    arrs = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in args]
    if all(a.ndim == 0 for a in arrs):
        return f(*[a.item() for a in arrs])
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    flat = [f(*t) for t in b]
    for i, v in zip(np.ndindex(*b.shape), flat):
        out[i] = v
    return asym(out)


# -- distributions ---------------------------------------------------------------
def _rn(k):
    import scipy.special as sp

    return getattr(sp, k)


_REAL = {
    "norm": (lambda z: _rn("ndtr")(z), lambda q: _rn("ndtri")(q)),
    "cauchy": (lambda z: 0.5 + math.atan(z) / math.pi, lambda q: math.tan(math.pi * (q - 0.5))),
}


class App:
    __slots__ = ("x", "loc", "scale", "z", "v", "kind")

    def __init__(self, x, loc, scale, z, v):
        self.x, self.loc, self.scale, self.z, self.v = x, loc, scale, z, v


def _families(name):
    return eng().dist.setdefault(name, {"cdf": [], "ppf": []})


def _order(a, b):
    """(a.x < b.x, a.x == b.x) in the simplest available coordinates"""
    if core.z3.eq(a.loc.e, b.loc.e) and core.z3.eq(a.scale.e, b.scale.e):
        return a.x.e < b.x.e, a.x.e == b.x.e
    return a.z.e < b.z.e, a.z.e == b.z.e


class SymDist:
    """symmetric location-scale family known by its standard cdf"""

    def __init__(self, name, loc=None, scale=None):
        self.name = name
        self.loc0, self.scale0 = loc, scale

    def __call__(self, loc=0.0, scale=1.0):
        return SymDist(self.name, loc, scale)

    freeze = __call__

    def _ls(self, loc, scale):
        if self.loc0 is not None:
            return self.loc0, self.scale0
        return loc, scale

    def _z(self, x, loc, scale):
        if scale.const == 1 and loc.const == 0:
            return x
        if loc.const == 0:
            return x / scale
        if scale.const == 1:
            return x - loc
        return (x - loc) / scale

    def _scale_ok(self, scale):
        """scipy returns nan unless scale > 0"""
        s = lift(scale) if not special(scale) else scale
        if special(s):
            return False
        if s.sgn == "+":
            return True
        return bool(s > 0)

    # scalars
    def _cdf(self, x, loc, scale):
        if not self._scale_ok(scale) or special(loc):
            return float("nan")
        if special(x):
            return x if x != x else (1.0 if x > 0 else 0.0)
        x, loc, scale = lift(x), lift(loc), lift(scale)
        e = eng()
        fam = _families(self.name)
        z = self._z(x, loc, scale)
        if z.const == 0 or e.same(x, loc):
            return lift(Fraction(1, 2))
        for a in fam["ppf"]:
            if core.z3.eq(a.x.e, x.e) or e.same(a.z, z):
                if not e.saturating:
                    return a.v
        for a in fam["cdf"]:
            if core.z3.eq(a.z.e, z.e) or e.same(a.z, z):
                return a.v
        v = e.fresh(self.name + ".cdf", "0+" if e.saturating else "+")
        if self.name in _REAL:
            e.define(v, _REAL[self.name][0], z)
        n = App(x, loc, scale, z, v)
        half = rv(Fraction(1, 2))
        if e.saturating:
            e.axiom(z3.And(v.e >= 0, v.e <= 1))
            e.axiom(z3.And(z3.Implies(x.e < loc.e, v.e <= half), z3.Implies(x.e > loc.e, v.e >= half)))
        else:
            e.axiom(z3.And(v.e > 0, v.e < 1))
            e.axiom(z3.And((x.e < loc.e) == (v.e < half), (x.e == loc.e) == (v.e == half)))
        for a in fam["cdf"]:
            lt, eq = _order(a, n)
            if e.saturating:
                e.axiom(z3.Implies(lt, a.v.e <= v.e))
                e.axiom(z3.Implies(eq, a.v.e == v.e))
                e.axiom(z3.Or(lt, eq, a.v.e >= v.e))
            else:
                e.axiom(z3.And(lt == (a.v.e < v.e), eq == (a.v.e == v.e)))
                e.axiom((a.z.e + z.e == 0) == (a.v.e + v.e == 1))
        for a in fam["ppf"]:  # a: value x, probability v
            self._link(n, a)
        fam["cdf"].append(n)
        return v

    def _link(self, c, p):
        """cdf application c against quantile application p"""
        e = eng()
        lt, eq = _order(c, p)
        if e.saturating:
            e.axiom(z3.Implies(lt, c.v.e <= p.v.e))
            e.axiom(z3.Or(lt, eq, c.v.e >= p.v.e))
        else:
            e.axiom(z3.And(lt == (c.v.e < p.v.e), eq == (c.v.e == p.v.e)))
            e.axiom((c.z.e + p.z.e == 0) == (c.v.e + p.v.e == 1))

    def _ppf(self, q, loc, scale):
        if not self._scale_ok(scale) or special(loc) or special(q):
            return float("nan")
        q, loc, scale = lift(q), lift(loc), lift(scale)
        e = eng()
        if q < 0 or q > 1:
            return float("nan")
        if q == 0:
            return float("-inf")
        if q == 1:
            return float("inf")
        fam = _families(self.name)
        if q.const == Fraction(1, 2):
            return loc
        if not e.saturating:
            for a in fam["cdf"]:
                if core.z3.eq(a.v.e, q.e):
                    if e.same(a.loc, loc) and e.same(a.scale, scale):
                        return a.x
                    return loc + scale * a.z
        for a in fam["ppf"]:
            if core.z3.eq(a.v.e, q.e) or e.same(a.v, q):
                if e.same(a.loc, loc) and e.same(a.scale, scale):
                    return a.x
                return loc + scale * a.z
        x = e.fresh(self.name + ".ppf")
        if self.name in _REAL:
            e.define(x, lambda p, l, s: l + s * _REAL[self.name][1](p), q, loc, scale)
        if loc.const == 0 and scale.const == 1:
            z = x
        else:
            z = e.fresh(self.name + ".z")
            if self.name in _REAL:
                e.define(z, _REAL[self.name][1], q)
            e.axiom(x.e == loc.e + scale.e * z.e)
        n = App(x, loc, scale, z, q)
        half = rv(Fraction(1, 2))
        e.axiom(z3.And((x.e < loc.e) == (q.e < half), (x.e == loc.e) == (q.e == half)))
        e.axiom(z3.And((z.e < 0) == (q.e < half), (z.e == 0) == (q.e == half)))
        for a in fam["ppf"]:
            lt, eq = _order(a, n)
            e.axiom(z3.And(lt == (a.v.e < q.e), eq == (a.v.e == q.e)))
            e.axiom((a.z.e + z.e == 0) == (a.v.e + q.e == 1))
        for a in fam["cdf"]:
            self._link(a, n)
        fam["ppf"].append(n)
        return x

    def _pdf(self, x, loc, scale):
        if not self._scale_ok(scale) or special(loc):
            return float("nan")
        if special(x):
            return x if x != x else 0.0
        x, loc, scale = lift(x), lift(loc), lift(scale)
        e = eng()
        z = self._z(x, loc, scale)
        if self.name == "cauchy":
            v = lift(1.0) / (e.pi * (z * z + 1))
        elif self.name == "norm":
            v = e.exp(-(z * z) / 2) / (e.pi * 2).sqrt()
        else:
            v = opaque(self.name + ".pdf", z)
        return v / scale

    # public
    def _do(self, f, x, loc, scale):
        used("stats")
        loc, scale = self._ls(loc, scale)
        return elementwise(f, x, loc, scale)

    def cdf(self, x, loc=0.0, scale=1.0):
        return self._do(self._cdf, x, loc, scale)

    def pdf(self, x, loc=0.0, scale=1.0):
        return self._do(self._pdf, x, loc, scale)

    def ppf(self, q, loc=0.0, scale=1.0):
        return self._do(self._ppf, q, loc, scale)

    def sf(self, x, loc=0.0, scale=1.0):
        return 1.0 - self.cdf(x, loc, scale)

    def isf(self, q, loc=0.0, scale=1.0):
        return self.ppf(1.0 - q, loc, scale)

    def logpdf(self, x, loc=0.0, scale=1.0):
        return elementwise(lambda t: eng().log(t), self.pdf(x, loc, scale))

    def median(self, loc=0.0, scale=1.0):
        return self._ls(loc, scale)[0]

    def interval(self, confidence, loc=0.0, scale=1.0):
        return (
            self.ppf((1.0 - confidence) / 2, loc, scale),
            self.ppf((1.0 + confidence) / 2, loc, scale),
        )


class SymUniform(SymDist):
    def __call__(self, loc=0.0, scale=1.0):
        return SymUniform(self.name, loc, scale)

    freeze = __call__

    def median(self, loc=0.0, scale=1.0):
        loc, scale = self._ls(loc, scale)
        return loc + 0.5 * scale

    def _cdf(self, x, loc, scale):
        if special(x):
            return x if x != x else (1.0 if x > 0 else 0.0)
        if not self._scale_ok(scale):
            return float("nan")
        z = (lift(x) - loc) / scale
        if z <= 0:
            return lift(0.0)
        if z >= 1:
            return lift(1.0)
        return z

    def _pdf(self, x, loc, scale):
        if special(x):
            return x if x != x else 0.0
        if not self._scale_ok(scale):
            return float("nan")
        z = (lift(x) - loc) / scale
        if z < 0 or z > 1:
            return lift(0.0)
        return lift(1.0) / scale

    def _ppf(self, q, loc, scale):
        if special(q) or not self._scale_ok(scale):
            return float("nan")
        q = lift(q)
        if q < 0 or q > 1:
            return float("nan")
        return loc + q * scale


def opaque(name, *args):
    """uninterpreted function with congruence only"""
    e = eng()
    args = [lift(a) for a in args]
    lst = e.opaque.setdefault(name, [])
    for a, v in lst:
        if len(a) == len(args) and all(core.z3.eq(x.e, y.e) or e.same(x, y) for x, y in zip(a, args)):
            return v
    v = e.fresh(name)
    for a, w in lst:
        if len(a) == len(args):
            e.axiom(z3.Implies(z3.And([x.e == y.e for x, y in zip(a, args)]), v.e == w.e))
    lst.append((args, v))
    return v


norm = SymDist("norm")
cauchy = SymDist("cauchy")
uniform = SymUniform("uniform")


def _voigt(x, sigma, gamma):
    used("voigt")
    if any(special(a) for a in (x, sigma, gamma)):
        raise Unsupported("voigt_profile of special value")
    x, sigma, gamma = lift(x), lift(sigma), lift(gamma)
    e = eng()
    if sigma == 0:
        return cauchy._pdf(x, lift(0.0), gamma)
    if gamma == 0:
        return norm._pdf(x, lift(0.0), sigma)
    root = lift(2.0).sqrt()
    for a, b, w in e.opaque.get("wofz", ()):
        if e.same(a * (sigma * root), x) and e.same(b * (sigma * root), gamma):
            return w / (sigma * (2.0 * e.pi).sqrt())
    lst = e.opaque.setdefault("voigt", [])
    n = len(lst)
    v = opaque("voigt", x, sigma, gamma)
    if len(lst) > n:
        e.axiom(v.e > 0)
        v.sgn = "+"
        e.define(v, lambda a, b, g: _rn("voigt_profile")(a, b, g), x, sigma, gamma)
        for a, w in lst[:-1]:
            # even in x, unimodal
            same = z3.And(a[1].e == sigma.e, a[2].e == gamma.e)
            e.axiom(z3.Implies(z3.And(same, a[0].e * a[0].e == x.e * x.e), v.e == w.e))
            e.axiom(z3.Implies(z3.And(same, a[0].e * a[0].e < x.e * x.e), v.e < w.e))
    return v


def voigt_profile(x, sigma, gamma, **kw):
    return elementwise(_voigt, x, sigma, gamma)


def _wofz(z):
    """real part: a Voigt profile; imaginary part: unknown"""
    used("voigt")
    if type(z) is not core.SymComplex:
        raise Unsupported("wofz of a real number")
    e = eng()
    a, b = lift(z.real), lift(z.imag)
    if not b > 0:
        raise Unsupported("wofz below the real axis")
    root = lift(2.0).sqrt()
    for (x, sigma, gamma), v in e.opaque.get("voigt", ()):
        if e.same(a * (sigma * root), x) and e.same(b * (sigma * root), gamma):
            return core.SymComplex(v * (sigma * (2.0 * e.pi).sqrt()), e.fresh("wofz_imag"))
    lst = e.opaque.setdefault("wofz", [])
    for p, q, w in lst:
        if e.same(p, a) and e.same(q, b):
            return core.SymComplex(w, e.fresh("wofz_imag"))
    w = e.fresh("wofz")
    e.axiom(w.e > 0)
    w.sgn = "+"
    e.define(w, lambda p, q: float(_rn("wofz")(complex(p, q)).real), a, b)
    for p, q, u in lst:
        same = q.e == b.e
        e.axiom(z3.Implies(z3.And(same, p.e * p.e == a.e * a.e), u.e == w.e))
        e.axiom(z3.Implies(z3.And(same, p.e * p.e < a.e * a.e), w.e < u.e))
    lst.append((a, b, w))
    return core.SymComplex(w, e.fresh("wofz_imag"))


def wofz(z, **kw):
    return elementwise(_wofz, z)


def ndtr(z):
    return norm.cdf(z)


def ndtri(q):
    return norm.ppf(q)


def erf(t):
    return elementwise(lambda u: 2.0 * norm._cdf(lift(2.0).sqrt() * u, lift(0.0), lift(1.0)) - 1.0, t)


def erfc(t):
    return 1.0 - erf(t)


# -- root finding ------------------------------------------------------------------
class RootResult(dict):
    """scipy.optimize.RootResults is a dict with attribute access"""

    def __init__(self, root, converged):
        dict.__init__(
            self, root=root, converged=converged, iterations=5 if converged else 50, function_calls=10 if converged else 100, method="newton",
            flag="converged" if converged else "convergence error",
        )

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


def _known_roots(func, args, x0, n, scalar):
    """roots of earlier calls which are roots of the same function from the same starting point

    The function is compared at the earlier root, a variable nothing else depends on.
    """
    e = eng()
    out = [None] * n
    for r0, y0, start in e.newton_roots:
        if all(o is not None for o in out):
            break
        if scalar:
            x, xs = r0, [x0]
        else:
            from .shims import asym

            x = np.empty(x0.shape, dtype=object)
            x.fill(r0)
            x = asym(x)
            xs = list(np.asarray(x0, dtype=object).ravel())
        y = func(x, *args)
        ys = list(np.asarray(y, dtype=object).ravel()) if isinstance(y, np.ndarray) else [y]
        if len(ys) != n:
            return out
        for i in range(n):
            if out[i] is None and not special(ys[i]) and e.same(lift(ys[i]), y0) and e.same(lift(xs[i]), start):
                out[i] = r0
    return out


def _roots_at_start(func, args, x0, n):
    """starting points which are roots: the iteration ends there"""
    e = eng()
    if not e.newton_start:
        return [None] * n
    ys = list(np.asarray(func(x0, *args), dtype=object).ravel())
    xs = list(np.asarray(x0, dtype=object).ravel())
    if len(ys) != n:
        return [None] * n
    return [x if not special(y) and e.same(lift(y), lift(0)) else None for x, y in zip(xs, ys)]


def newton(func, x0, fprime=None, args=(), tol=1.48e-8, maxiter=50, fprime2=None, x1=None, rtol=0.0, full_output=False, disp=True):
    used("newton")
    e = eng()
    if isinstance(x0, (list, tuple)):
        from .shims import asym

        x0 = asym(np.array(x0, dtype=object))
    k = len(e.newton_flags)
    if isinstance(x0, np.ndarray) and x0.ndim > 0 and x0.size > 1:
        n = x0.size
        at_start = _roots_at_start(func, args, x0, n)
        flags = [e.newton_always or at_start[i] is not None or bool(e.choose_input("newton%d.%d" % (k, i), 2)) for i in range(n)]
        e.newton_flags.append(flags)
        if not any(flags):
            raise RuntimeError("all failed to converge after %d iterations" % maxiter)
        known = _known_roots(func, args, x0, n, False)
        known = [q if s is None else s for q, s in zip(known, at_start)]
        roots = [e.fresh("newton") if not f or q is None else q for f, q in zip(flags, known)]
        from .shims import asym

        r = np.empty(n, dtype=object)
        r[:] = roots
        r = asym(r)
        y = func(r, *args)
        y = np.asarray(y, dtype=object).ravel()
        for i in range(n):
            if flags[i]:
                if special(y[i]):
                    raise core.Infeasible()
                if known[i] is None:
                    e.assume(lift(y[i]) == 0)
                    e.newton_roots.append((roots[i], lift(y[i]), lift(x0.ravel()[i])))
        if not all(flags):
            _warnings.warn("some failed to converge after %d iterations" % maxiter, RuntimeWarning)
        if full_output:
            import collections

            T = collections.namedtuple("result", ("root", "converged", "zero_der"))
            return T(r, np.array(flags), np.zeros(n, dtype=bool))
        return r
    at_start = _roots_at_start(func, args, x0, 1)[0]
    flag = e.newton_always or at_start is not None or bool(e.choose_input("newton%d" % k, 2))
    e.newton_flags.append([flag])
    arr = isinstance(x0, np.ndarray) and x0.ndim
    known = _known_roots(func, args, x0, 1, not arr)[0] if flag else None
    known = known if at_start is None else at_start
    r = e.fresh("newton") if known is None else known
    if arr:
        from .shims import asym

        a = np.empty(x0.shape, dtype=object)
        a.fill(r)
        ret = asym(a)
    else:
        ret = r
    if flag:
        y = func(ret, *args)
        if isinstance(y, np.ndarray):
            y = y.reshape(-1)[0]
        if special(y):
            raise core.Infeasible()
        if known is None:
            e.assume(lift(y) == 0)
            e.newton_roots.append((r, lift(y), lift(x0.ravel()[0] if arr else x0)))
    elif disp:
        raise RuntimeError("Failed to converge after %d iterations" % maxiter)
    if full_output:
        return ret, RootResult(ret, flag)
    return ret


def brentq(f, a, b, args=(), xtol=2e-12, rtol=1e-15, maxiter=100, full_output=False, disp=True):
    used("newton")
    e = eng()
    fa, fb = f(a, *args), f(b, *args)
    if (fa > 0 and fb > 0) or (fa < 0 and fb < 0):
        raise ValueError("f(a) and f(b) must have different signs")
    r = e.fresh("root")
    e.assume(r >= a)
    e.assume(r <= b)
    e.assume(lift(f(r, *args)) == 0)
    return (r, RootResult(r, True)) if full_output else r


# -- quadrature -----------------------------------------------------------------------
class Quad:
    def __init__(self, ts, f, lims, v, err):
        self.ts, self.f, self.lims, self.v, self.err = ts, f, lims, v, err


def _eval_integrand(f, lims, args):
    e = eng()
    ts = []
    for a, b in lims:
        t = e.fresh("t")
        for lo, hi in ((a, b),):
            if not special(lo):
                e.axiom(z3.Or(lift(lo).e < t.e, lift(lo).e >= lift(hi).e if not special(hi) else z3.BoolVal(False)))
                if lift(lo).sgn in ("+", "0+", "0") and not special(hi) and bool(lift(lo) < hi):
                    t.sgn = "+"
            if not special(hi):
                e.axiom(z3.Or(t.e < lift(hi).e, lift(lo).e >= lift(hi).e if not special(lo) else z3.BoolVal(False)))
        ts.append(t)
    y = f(*ts, *args)
    if isinstance(y, np.ndarray):
        y = y.reshape(-1)[0]
    if special(y):
        raise Unsupported("integrand is not finite")
    return ts, lift(y)


def quad_value(f, lims, args=()):
    """exact integral over a box as a solver variable"""
    e = eng()
    used("quad")
    lims = [tuple(x if special(x) else lift(x) for x in l) for l in lims]
    first = lims[0]
    if len(lims) == 1 and not special(first[0]) and not special(first[1]) and e.same(first[0], first[1]):
        return lift(0.0)
    for q in e.quads:
        if len(q.lims) != len(lims):
            continue
        ok = True
        for (a, b), (c, d) in zip(q.lims, lims):
            for u, w in ((a, c), (b, d)):
                if special(u) or special(w):
                    if not (special(u) and special(w) and u == w):
                        ok = False
                elif not e.proved_eq(u, w):
                    ok = False
        if not ok:
            continue
        # the integrands agree if they agree at the earlier integration variable, which is arbitrary
        y = f(*q.ts, *args)
        if isinstance(y, np.ndarray):
            y = y.reshape(-1)[0]
        if not special(y) and e.proved_eq(q.f, lift(y), timeout=4000):
            return q.v
    ts, y = _eval_integrand(f, lims, args)
    v = e.fresh("quad")
    q = Quad(ts, y, lims, v, None)
    e.quads.append(q)
    return v


def quad(func, a, b, args=(), full_output=0, epsabs=1.49e-8, epsrel=1.49e-8, limit=50, **kw):
    if not isinstance(args, tuple):
        args = (args,)
    if eng().nquad_hook is not None:
        v = eng().nquad_hook(func, [(a, b)], args)
        return (*v, {}) if full_output else v
    v = quad_value(func, [(a, b)], args)
    err = eng().fresh("quaderr", "0+")
    eng().axiom(err.e >= 0)
    return (v, err, {}) if full_output else (v, err)


def nquad(func, ranges, args=None, opts=None, full_output=False):
    e = eng()
    used("quad")
    rs = []
    for r in ranges:
        if callable(r):
            raise Unsupported("nquad with callable range")
        r = list(r)
        if len(r) != 2:
            raise ValueError("ranges must have two entries")
        rs.append((r[0], r[1]))
    hook = e.nquad_hook
    if hook is not None:
        out = hook(func, rs, tuple(args or ()))
        if out is not None:
            return out
    v = quad_value(func, rs, tuple(args or ()))
    err = e.fresh("quaderr", "0+")
    e.axiom(err.e >= 0)
    return v, err


# -- interpolation ----------------------------------------------------------------------
def _seg(x, y, v):
    """linear interpolation with scipy's index convention (x sorted)"""
    n = len(x)
    i = 0
    while i < n and bool(x[i] < v):  # searchsorted, side left
        i += 1
    i = min(max(i, 1), n - 1)
    lo = i - 1
    if not special(y[i]) and not special(y[lo]):
        den = lift(x[i]) - x[lo] if not special(x[i]) and not special(x[lo]) else None
        if den is None:
            raise Unsupported("interpolation with infinite abscissa")
        if not den.nonzero():
            return float("nan")
        return (lift(y[i]) - y[lo]) / den * (v - x[lo]) + y[lo]
    return float("nan")


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        used("interp1d")
        if kind not in ("linear", 1):
            raise Unsupported("interp1d kind %r" % (kind,))
        x = list(np.asarray(x, dtype=object))
        y = list(np.asarray(y, dtype=object))
        if len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted and any(is_sym(v) for v in x):
            idx = []
            for i in range(len(x)):  # stable insertion sort
                j = len(idx)
                while j > 0 and bool(x[i] < x[idx[j - 1]]):
                    j -= 1
                idx.insert(j, i)
            x = [x[i] for i in idx]
            y = [y[i] for i in idx]
        elif not assume_sorted:
            idx = sorted(range(len(x)), key=lambda i: x[i])
            x = [x[i] for i in idx]
            y = [y[i] for i in idx]
        self.x, self.y = x, y
        self.fill_value = fill_value
        if bounds_error is None:
            bounds_error = isinstance(fill_value, float) and fill_value != fill_value
        self.bounds_error = bounds_error

    def _one(self, v):
        x, y = self.x, self.y
        if special(v):
            if v != v:
                return v
            below, above = v < 0, v > 0
        else:
            extrap = isinstance(self.fill_value, str)
            below = not extrap and bool(v < x[0])
            above = not extrap and not below and bool(v > x[-1])
        if below or above:
            if self.bounds_error:
                raise ValueError("A value in x_new is %s the interpolation range." % ("below" if below else "above"))
            fv = self.fill_value
            if isinstance(fv, tuple):
                return fv[0] if below else fv[1]
            return fv
        return _seg(x, y, v)

    def __call__(self, v):
        if eng().loading == "concrete":
            import scipy.interpolate

            with np.errstate(all="ignore"):
                return scipy.interpolate.interp1d(np.array(self.x, float), np.array(self.y, float), bounds_error=self.bounds_error, fill_value=self.fill_value)(v)
        return elementwise(self._one, v)


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if eng().loading == "concrete":
        return np.interp(np.asarray(x, float), np.asarray(xp, float), np.asarray(fp, float), left, right, period)
    used("interp1d")
    xp = list(np.asarray(xp, dtype=object))
    fp = list(np.asarray(fp, dtype=object))

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        n = len(xp)
        i = n - 1
        while i > 0 and not bool(xp[i] <= v):
            i -= 1
        if i == n - 1:
            return fp[-1]
        if special(fp[i]) and fp[i] == fp[i + 1]:
            return fp[i]
        return (lift(fp[i + 1]) - fp[i]) / (lift(xp[i + 1]) - xp[i]) * (v - xp[i]) + fp[i]

    return elementwise(one, x)


class Passthrough:
    """attribute of an unmodelled scipy module: usable with concrete arguments only"""

    def __init__(self, name, obj):
        self._name, self._obj = name, obj

    def __getattr__(self, k):
        return Passthrough(self._name + "." + k, getattr(self._obj, k))

    def __call__(self, *a, **k):
        def bad(v):
            if is_sym(v):
                return True
            if isinstance(v, np.ndarray) and v.dtype == object:
                return True
            if isinstance(v, (list, tuple)):
                return any(bad(w) for w in v)
            return callable(v)

        if any(bad(v) for v in list(a) + list(k.values())):
            raise Unsupported("no model for %s" % self._name)
        return self._obj(*a, **k)


class ScipyModule(types.ModuleType):
    def __init__(self, name, overrides):
        types.ModuleType.__init__(self, name)
        self.__dict__["_ov"] = overrides
        self.__dict__["__path__"] = []

    def __getattr__(self, k):
        ov = self.__dict__["_ov"]
        if k in ov:
            v = ov[k]
            return v() if isinstance(v, Lazy) else v
        import importlib

        if k.startswith("__"):
            raise AttributeError(k)
        try:
            return scipy_module(self.__name__ + "." + k)
        except ImportError:
            pass
        real = importlib.import_module(self.__name__)
        obj = getattr(real, k)
        if callable(obj):
            return Passthrough(self.__name__ + "." + k, obj)
        return obj


class PhysicalConstants(dict):
    """exact rationals inside functions, floats while a module is being loaded"""

    def __init__(self):
        from scipy.constants import physical_constants as pc

        dict.__init__(self, pc)

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if core.ENGINE is not None and not core.ENGINE.loading:
            return (lift(float(v[0])),) + tuple(v[1:])
        return v


class Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


_over = {
    "scipy.stats": {"norm": norm, "cauchy": cauchy, "uniform": uniform},
    "scipy.special": {"voigt_profile": voigt_profile, "wofz": wofz, "ndtr": ndtr, "ndtri": ndtri, "erf": erf, "erfc": erfc},
    "scipy.optimize": {"newton": newton, "brentq": brentq, "bisect": brentq},
    "scipy.integrate": {"quad": quad, "nquad": nquad},
    "scipy.interpolate": {"interp1d": interp1d},
    "scipy.constants": {"pi": Lazy(lambda: eng().pi), "physical_constants": PhysicalConstants()},
    "scipy": {},
}
_mods = {}


def scipy_module(name):
    if name in _mods:
        return _mods[name]
    if name not in _over:
        import importlib

        importlib.import_module(name)
    m = ScipyModule(name, _over.get(name, {}))
    _mods[name] = m
    return m
