"""C04: equidistant-probability grids for a coverage."""
from .common import HarnessTable, resonance, KINDS

HARNESSES = H = HarnessTable()
N = [2, 3, 4]
NT = [2, 3, 4, 6]


def quantiles(c):
    """the cumulative probabilities of the points run in equal steps"""
    kind = c.params["kind"]
    cov = c.real("coverage", 0, 1, prefer=(0.05, 0.9))
    n = c.choice("n", NT if c.thorough else N)
    final = c.choice("final", [None, 0])
    r = resonance(c, kind, n_widths=2, final=final)
    c.newton_converges()
    with c.catch() as w:
        g = r.res.equidistant_probability_grid(cov, n)
    c.assume(not w)
    c.check(len(g) == n, "number of points")
    for i in range(n):
        q = (1 - cov) / 2 + cov * i / (n - 1)
        c.finite(g[i], "point %d of %d" % (i, n))
        if kind in ("PseudoVoigt", "Voigt"):
            c.eq(r.spec.cdf(g[i]), q, "cumulative probability of point %d of %d" % (i, n), rtol=1e-5)
        else:
            c.eq(g[i], r.spec.ppf(q), "point %d of %d" % (i, n), rtol=1e-7)
    if kind in ("Resonance", "BreitWigner", "Gauss"):
        for i in range(n - 1):
            c.lt(g[i], g[i + 1], "order of points %d and %d" % (i, i + 1))
    c.reached("grid")


for k in KINDS:
    H.add(quantiles, name="quantiles_" + k, params={"kind": k}, reach=["grid"], witnesses=9,
          bounds="coverage in (0,1), 2, 3 or 4 points (thorough: 6), two partial widths, with and without final state")


def unchanged_by_history(c):
    """asking for grids and values does not change later grids"""
    kind = c.params["kind"]
    cov = c.real("coverage", 0, 1, prefer=(0.05, 0.9))
    a = c.real("lo", 0, strict=False, prefer=(0.1, 5.0))
    b = c.real("hi", prefer=(5.0, 20.0))
    c.assume(a < b)
    r = resonance(c, kind, n_widths=1)
    first = c.choice("first", ["value", "limits", "coverage", "energy grid", "interval"])
    with c.catch():
        if first == "value":
            r.res(a)
        elif first == "limits":
            r.res.equidistant_probability_grid((a, b), 3)
        elif first == "coverage":
            r.res.equidistant_probability_grid(cov / 2, 4)
        elif first == "energy grid":
            r.res.equidistant_energy_grid((a, b), 4)
        else:
            r.res.coverage_interval(cov / 2)
    g = r.res.equidistant_probability_grid(cov, 3)
    for i in range(3):
        c.eq(g[i], r.spec.ppf((1 - cov) / 2 + cov * i / 2), "point %d" % i)


for k in KINDS[:3]:
    H.add(unchanged_by_history, name="history_" + k, params={"kind": k}, bounds="one earlier call, 3 points", witnesses=5)
