"""C05: equidistant-probability grids between energy limits."""
from .common import HarnessTable, resonance, KINDS, leaf

HARNESSES = H = HarnessTable()
N = [2, 3, 4]


def limits(c):
    a = c.real("lo", prefer=(0.1, 5.0))
    b = c.real("hi", prefer=(5.0, 20.0))
    c.assume(a < b)
    form = c.choice("form", ["tuple", "list", "array"])
    return a, b, {"tuple": (a, b), "list": [a, b], "array": c.array([a, b])}[form]


def basic(c, g, a, b, n):
    c.check(len(g) == n, "number of points")
    for i in range(n):
        c.finite(g[i], "point %d" % i)
    c.eq(g[0], a, "first point", rtol=1e-15)
    c.eq(g[n - 1], b, "last point", rtol=1e-15)
    for i in range(1, n - 1):
        c.le(a, g[i], "point %d above the lower limit" % i)
        c.le(g[i], b, "point %d below the upper limit" % i)
    for i in range(n - 1):
        c.le(g[i], g[i + 1], "order of points %d and %d" % (i, i + 1))


def resolved(c):
    """ideal distribution functions"""
    kind = c.params["kind"]
    a, b, lim = limits(c)
    n = c.choice("n", N)
    r = resonance(c, kind, n_widths=1)
    c.newton_converges()
    if kind == "Resonance":
        # the density vanishes outside E_r +- 1/2
        c.assume(c.all([a > r.Er - 0.5, b < r.Er + 0.5]))
    with c.catch() as w:
        g = r.res.equidistant_probability_grid(lim, n)
    c.assume(not w)
    basic(c, g, a, b, n)
    Fa, Fb = r.spec.cdf(a), r.spec.cdf(b)
    if not c.symbolic:
        c.assume(Fb - Fa > 1e-4)
    for i in range(1, n - 1):
        c.eq(r.spec.cdf(g[i]), Fa + (Fb - Fa) * i / (n - 1), "cumulative probability of point %d" % i, rtol=1e-5)
    c.eqs(lim, [a, b], "limits of the caller")
    c.reached("grid")


for k in KINDS[:3]:
    H.add(resolved, name="resolved_" + k, params={"kind": k}, reach=["grid"], witnesses=9,
          bounds="lower < upper (any sign), 2, 3 or 4 points, ideal cumulative probability")


def saturated(c):
    """distribution functions which may be exactly 0 or 1 in the tails"""
    kind = c.params["kind"]
    c.saturating()
    a, b, lim = limits(c)
    n = c.choice("n", N)
    r = resonance(c, kind, n_widths=1)
    with c.catch() as w:
        g = r.res.equidistant_probability_grid(lim, n)
    basic(c, g, a, b, n)
    c.reached("grid")


for k in KINDS[:3]:
    H.add(saturated, name="saturated_" + k, params={"kind": k}, reach=["grid"], witnesses=20, budget=400,
          bounds="lower < upper (any sign) anywhere, 2, 3 or 4 points, cumulative probability monotonic and possibly saturated")


def tails(c):
    """limits far out on one side of a narrow resonance"""
    kind = c.params["kind"]
    c.saturating()
    side = c.choice("side", ["below", "above"])
    n = c.choice("n", N)
    r = resonance(c, kind, n_widths=1)
    d = c.real("d", 0, prefer=(0.5, 20.0))
    w = c.real("w", 0, prefer=(0.1, 5.0))
    if side == "below":
        b = r.Er - d
        a = b - w
        c.assume(a >= 0)
    else:
        a = r.Er + d
        b = a + w
    with c.catch():
        g = r.res.equidistant_probability_grid((a, b), n)
    basic(c, g, a, b, n)


for k in KINDS[:3]:
    H.add(tails, name="tails_" + k, params={"kind": k}, witnesses=12, bounds="limits on one side of the resonance, 2, 3 or 4 points")


def pseudo_voigt(c):
    """the grid keeps its limits wherever the root finder lands"""
    a, b, lim = limits(c)
    n = c.choice("n", [2, 3])
    r = resonance(c, c.params["kind"], n_widths=1)
    c.newton_converges()
    with c.catch() as w:
        g = r.res.equidistant_probability_grid(lim, n)
    basic(c, g, a, b, n)
    c.reached("grid")


for k in KINDS[3:]:
    H.add(pseudo_voigt, name="newton_" + k, params={"kind": k}, reach=["grid"], witnesses=12, feas_ms=150,
          bounds="lower < upper (any sign), 2 or 3 points, root finder converges to any value")


def repeated(c):
    """grids do not depend on earlier requests or on what the caller did to earlier grids"""
    a = c.real("lo", 0, strict=False, prefer=(0.1, 5.0))
    b = c.real("hi", prefer=(5.0, 20.0))
    d = c.real("lo2", 0, strict=False, prefer=(0.1, 5.0))
    e = c.real("hi2", prefer=(5.0, 20.0))
    c.assume(c.all([a < b, d < e]))
    r = resonance(c, c.params["kind"], n_widths=1)
    with c.catch():
        first = r.res.equidistant_probability_grid((a, b), 3)
        if c.choice("changed", [False, True]):
            first[0] = first[1] = 7.0
        g = r.res.equidistant_probability_grid((d, e), 3)
        h = r.res.equidistant_probability_grid((a, b), 3)
    basic(c, g, d, e, 3)
    basic(c, h, a, b, 3)
    if c.symbolic:
        c.eq(r.spec.cdf(g[1]) * 2, r.spec.cdf(d) + r.spec.cdf(e), "middle of the second grid")
        c.eq(r.spec.cdf(h[1]) * 2, r.spec.cdf(a) + r.spec.cdf(b), "middle of the third grid")


for k in KINDS[1:3]:
    H.add(repeated, name="repeated_" + k, params={"kind": k}, witnesses=3, bounds="three requests with different limits, 3 points")
