"""C03: equidistant energy grids."""
from .common import HarnessTable, leaf, resonance, KINDS

HARNESSES = H = HarnessTable()
N = [2, 3, 5]


def limits(c):
    a = c.real("lo", prefer=(0.1, 5.0))
    b = c.real("hi", prefer=(5.0, 20.0))
    c.assume(a < b)
    form = c.choice("form", ["tuple", "list", "array"])
    return a, b, {"tuple": (a, b), "list": [a, b], "array": c.array([a, b])}[form]


def verify(c, g, a, b, n, what):
    c.check(len(g) == n, what + ": number of points")
    for i in range(n):
        want = a + (b - a) * i / (n - 1)
        c.eq(g[i], want, "%s: point %d of %d" % (what, i, n), atol=1e-9)


def objects(c):
    what = c.params["what"]
    E = 1.0
    if what == "leaf":
        return leaf(c, "f", E)[0]
    if what == "constant":
        return c.mod("ries.cross_section").ConstantCrossSection(c.real("k"))
    if what == "sum":
        f, _ = leaf(c, "f", E)
        g, _ = leaf(c, "g", E)
        k = c.real("k")
        return {"add": f + g, "scaled": f * k, "number": f + k}[c.choice("sum", ["add", "scaled", "number"])]
    if what == "kn":
        return c.mod("ries.nonresonant.klein_nishina").KleinNishina(c.real("Z", 0), c.real("mc2", 0))
    if what == "xrmac":
        return c.mod("ries.nonresonant.xrmac").XRMAC([[1.0, 2.0, 3.0], [2.0, 1.0, 1.0]])
    return resonance(c, what, n_widths=1).res


def by_limits(c):
    a, b, lim = limits(c)
    n = c.choice("n", N + [7] if c.thorough else N)
    x = objects(c)
    g = x.equidistant_energy_grid(lim, n)
    verify(c, g, a, b, n, "grid")
    c.eqs(lim, [a, b], "limits of the caller")


def descending(c):
    """limits in descending order"""
    a = c.real("hi", prefer=(5.0, 20.0))
    b = c.real("lo", prefer=(0.1, 5.0))
    c.assume(b < a)
    n = c.choice("n", [2, 3])
    verify(c, objects(c).equidistant_energy_grid((a, b), n), a, b, n, "descending grid")


for w in ["leaf", "constant", "sum", "kn", "xrmac", "BreitWigner"]:
    H.add(descending, name="descending_" + w, params={"what": w}, bounds="upper limit first (any sign), 2 or 3 points", witnesses=2)


def integer_coverage(c):
    """coverages that are integers: everything or nothing"""
    r = resonance(c, "Resonance", n_widths=1)
    cov = c.choice("coverage", [0, 1])
    n = c.choice("n", [2, 3])
    with c.catch():
        g = r.res.equidistant_energy_grid(cov, n)
        p = r.res.equidistant_probability_grid(cov, n)
    lo, hi = r.Er - 0.5 * cov, r.Er + 0.5 * cov
    c.assume(lo > 0)
    verify(c, g, lo, hi, n, "energy grid")
    verify(c, p, lo, hi, n, "probability grid")


H.add(integer_coverage, bounds="coverages 0 and 1 as integers, uniform distribution, 2 or 3 points", witnesses=4)


for w in ["leaf", "constant", "sum", "kn", "xrmac"] + KINDS:
    H.add(by_limits, name="limits_" + w, params={"what": w}, bounds="lower < upper (any sign), 2, 3 or 5 points (thorough: 7)", witnesses=9)


def by_coverage(c):
    kind = c.params["kind"]
    cov = c.real("coverage", 0, 1, prefer=(0.05, 0.6))
    n = c.choice("n", N)
    r = resonance(c, kind, n_widths=1)
    c.newton_converges()
    lo, hi = r.spec.ppf((1 - cov) / 2), r.spec.ppf((1 + cov) / 2)
    if kind in ("PseudoVoigt", "Voigt"):
        lo, hi = r.res.coverage_interval(cov)
    with c.catch() as w:
        g = r.res.equidistant_energy_grid(cov, n)
    if lo < 0:
        lo = 0.0
    verify(c, g, lo, hi, n, "grid by coverage")
    c.reached("positive")


for k in KINDS:
    H.add(by_coverage, name="coverage_" + k, params={"kind": k}, bounds="coverage in (0,1), 2, 3 or 5 points", reach=["positive"], witnesses=6, rtol=1e-6)


def repeated(c):
    """grids do not depend on earlier requests or on what the caller did to earlier grids"""
    a = c.real("lo", prefer=(0.1, 5.0))
    b = c.real("hi", prefer=(5.0, 20.0))
    d = c.real("lo2", prefer=(0.1, 5.0))
    e = c.real("hi2", prefer=(5.0, 20.0))
    c.assume(c.all([a < b, d < e]))
    x, y = objects(c), objects(c)
    n = 3
    first = x.equidistant_energy_grid((a, b), n)
    if c.choice("changed", [False, True]):
        first[0] = first[1] = 7.0
    m = c.choice("n", [3, 2])
    verify(c, x.equidistant_energy_grid((d, e), m), d, e, m, "second grid")
    verify(c, y.equidistant_energy_grid((d, e), n), d, e, n, "grid of another object")
    verify(c, x.equidistant_energy_grid((a, b), n), a, b, n, "third grid")


for w in ["leaf", "constant", "sum", "kn", "xrmac"] + KINDS:
    H.add(repeated, name="repeated_" + w, params={"what": w}, bounds="four requests with different limits on two objects", witnesses=3)


def twice_by_coverage(c):
    """a coverage after another one, after limits and before limits"""
    kind = c.params["kind"]
    r = resonance(c, kind, n_widths=1)
    u, v = c.real("u", 0, 1, prefer=(0.05, 0.6)), c.real("v", 0, 1, prefer=(0.05, 0.6))
    a = c.real("lo", prefer=(0.1, 5.0))
    b = c.real("hi", prefer=(5.0, 20.0))
    c.assume(a < b)
    n = 3
    with c.catch():
        r.res.equidistant_energy_grid(u, n)
        g = r.res.equidistant_energy_grid(v, n)
        h = r.res.equidistant_energy_grid((a, b), n)
    lo, hi = r.spec.ppf((1 - v) / 2), r.spec.ppf((1 + v) / 2)
    if lo < 0:
        lo = 0.0
    verify(c, g, lo, hi, n, "second coverage")
    verify(c, h, a, b, n, "limits after coverages")


for k in KINDS[:3]:
    H.add(twice_by_coverage, name="twice_" + k, params={"kind": k}, bounds="two coverages and limits in sequence, 3 points", witnesses=3, rtol=1e-6)
