"""C06: union grid of a weighted sum."""
from .common import HarnessTable, resonance

HARNESSES = H = HarnessTable()


def gridded(c, name, n):
    """a cross section whose probability grid consists of arbitrary ascending points"""
    cs = c.mod("ries.cross_section")
    pts = []
    for i in range(n):
        p = c.real("%s.p%d" % (name, i), 0, prefer=(0.5, 9.5))
        if pts:
            c.assume(pts[-1] <= p)
        pts.append(p)

    class Gridded(cs.CrossSection):
        def __init__(self):
            self.calls = []

        def __call__(self, E):
            return 1.0 * E

        def equidistant_probability_grid(self, limits, n_points):
            self.calls.append((limits, n_points))
            return c.array(pts)

    return Gridded(), pts


def is_union(c, g, pts, what):
    """ascending, every point is one of pts, every one of pts occurs"""
    n = len(g)
    c.check(n <= len(pts), what + ": number of points")
    c.check(n >= 1 or not pts, what + ": not empty")
    for i in range(n - 1):
        c.check(g[i] < g[i + 1], what + ": ascending without repetition at %d" % i)
    for i in range(n):
        c.check(c.any([g[i] == p for p in pts]), what + ": point %d is a constituent's" % i)
    for j, p in enumerate(pts):
        c.check(c.any([g[i] == p for i in range(n)]), what + ": constituent point %d occurs" % j)


def union(c):
    """arbitrary grids of the constituents, including coinciding points"""
    sizes = c.params["sizes"]
    cs = c.mod("ries.cross_section")
    parts = [gridded(c, "g%d" % i, n) for i, n in enumerate(sizes)]
    ks = [c.real("k%d" % i, prefer=(-3, 3)) for i in range(len(parts))]
    a = c.real("lo", 0, strict=False, prefer=(0.0, 0.4))
    b = c.real("hi", prefer=(10.0, 12.0))
    c.assume(a < b)
    build = c.choice("build", ["sum", "scaled", "algebra", "algebra2"])
    if build == "sum":
        s = cs.CrossSectionWeightedSum([p for p, _ in parts])
    elif build == "scaled":
        s = cs.CrossSectionWeightedSum([p for p, _ in parts], list(ks))
    elif build == "algebra":
        s = ks[0] * parts[0][0]
        for p, k in zip(parts[1:], ks[1:]):
            s = s + p[0] * k
    else:
        s = parts[-1][0] * ks[-1]
        for p, k in list(zip(parts, ks))[-2::-1]:
            s = k * p[0] + s
    g = s.equidistant_probability_grid((a, b), 7)
    is_union(c, g, [x for _, pts in parts for x in pts], "grid")
    for i, (p, _) in enumerate(parts):
        c.check(len(p.calls) >= 1, "constituent %d asked" % i)
        for lim, n in p.calls:
            c.eqs(lim, [a, b], "limits passed to constituent %d" % i)
            c.check(n == 7, "number of points passed to constituent %d" % i)
    c.reached("union")


H.add(union, name="union_2_2", params={"sizes": [2, 2]}, reach=["union"], bounds="2 constituents with 2 arbitrary points each", witnesses=15)
H.add(union, name="union_1_1_1", params={"sizes": [1, 1, 1]}, reach=["union"], bounds="3 constituents with 1 arbitrary point each", witnesses=15)
H.add(union, name="union_3_2", params={"sizes": [3, 2]}, reach=["union"], bounds="2 constituents with 3 and 2 arbitrary points", witnesses=15, thorough_only=True, budget=600, max_paths=20000)
H.add(union, name="union_2_2_1", params={"sizes": [2, 2, 1]}, reach=["union"], bounds="3 constituents with 2, 2 and 1 arbitrary points", witnesses=15, thorough_only=True, budget=600, max_paths=20000)


def flat_grids(c):
    """constant and non-resonant constituents contribute an equidistant energy grid"""
    cs = c.mod("ries.cross_section")
    a = c.real("lo", 0, strict=False, prefer=(0.0, 4.0))
    b = c.real("hi", prefer=(5.0, 12.0))
    c.assume(a < b)
    n = c.choice("n", [2, 3, 4])
    what = c.choice("what", ["constant", "kn", "xrmac", "nonresonant"])
    k = c.real("k", prefer=(-3, 3))
    if what == "constant":
        x = cs.ConstantCrossSection(k)
    elif what == "kn":
        x = c.mod("ries.nonresonant.klein_nishina").KleinNishina(26)
    elif what == "xrmac":
        x = c.mod("ries.nonresonant.xrmac").XRMAC([[1.0, 2.0, 3.0], [2.0, 1.0, 1.0]])
    else:
        x = c.mod("ries.nonresonant.nonresonant").Nonresonant()
    pts = [a + (b - a) * i / (n - 1) for i in range(n)]
    c.eqs(x.equidistant_probability_grid((a, b), n), pts, "grid of " + what, atol=1e-9)
    extra, own = gridded(c, "g", 1)
    s = (extra + x) if c.choice("order", [0, 1]) else (x + extra)
    if c.choice("scaled", [False, True]):
        s = s * k
    g = s.equidistant_probability_grid((a, b), n)
    if c.symbolic:
        is_union(c, g, pts + own, "grid of sum")
    else:
        c.eqs(g, sorted(set(list(c.np.linspace(a, b, n)) + own)), "grid of sum", atol=1e-9)


H.add(flat_grids, bounds="2, 3 or 4 points, one constituent with one arbitrary point", witnesses=12)


def with_number(c):
    """adding a number contributes the grid of a constant"""
    a = c.real("lo", 0, strict=False, prefer=(0.0, 0.4))
    b = c.real("hi", prefer=(10.0, 12.0))
    c.assume(a < b)
    q = c.real("q", prefer=(-3, 3))
    x, own = gridded(c, "g", 2)
    s = (x + q) if c.choice("side", [0, 1]) else (q + x)
    g = s.equidistant_probability_grid((a, b), 2)
    is_union(c, g, [a, b] + own, "grid")


H.add(with_number, bounds="2 points, one constituent with two arbitrary points", witnesses=8)


def resonances(c):
    """two real resonances: the union of their own grids"""
    k1, k2 = c.params["kinds"]
    cs = c.mod("ries.cross_section")
    a = c.real("lo", 0, strict=False, prefer=(0.1, 1.5))
    b = c.real("hi", prefer=(15.0, 20.0))
    c.assume(a < b)
    r1 = resonance(c, k1, "r1.", n_widths=1).res
    r2 = resonance(c, k2, "r2.", n_widths=1).res
    p1 = r1.equidistant_probability_grid((a, b), 3)
    p2 = r2.equidistant_probability_grid((a, b), 3)
    s = (r1 + r2 * 2.0) if c.choice("order", [0, 1]) else (r2 * 0.5 + r1)
    g = s.equidistant_probability_grid((a, b), 3)
    pts = [p1[0], p1[1], p1[2], p2[0], p2[1], p2[2]]
    is_union(c, g, pts, "grid")


H.add(resonances, name="resonances_BW", params={"kinds": ("BreitWigner", "BreitWigner")}, bounds="two resonances, 3 points", witnesses=6, feas_ms=300)
H.add(resonances, name="resonances_Gauss", params={"kinds": ("Gauss", "BreitWigner")}, bounds="two resonances, 3 points", witnesses=6, feas_ms=300)


def repeated(c):
    """later grids depend neither on earlier ones nor on what the caller did to them"""
    cs = c.mod("ries.cross_section")
    x, px = gridded(c, "x", 1)
    y, py = gridded(c, "y", 1)
    z, pz = gridded(c, "z", 1)
    a = c.real("lo", 0, strict=False, prefer=(0.0, 0.4))
    b = c.real("hi", prefer=(10.0, 12.0))
    c.assume(a < b)
    s = (x + y) if c.choice("build", [0, 1]) else cs.CrossSectionWeightedSum([x, y], [2.0, 3.0])
    g = s.equidistant_probability_grid((a, b), 3)
    if c.choice("changed", [False, True]):
        g[0] = 77.0
    t = s + z
    is_union(c, t.equidistant_probability_grid((a, b), 3), px + py + pz, "grid of the extended sum")
    x.calls.clear()
    is_union(c, s.equidistant_probability_grid((a, b * 2), 4), px + py, "grid of the sum again")
    c.check(len(x.calls) >= 1, "constituent asked again")
    for lim, n in x.calls:
        c.eqs(lim, [a, b * 2], "new limits passed on")
        c.check(n == 4, "new number of points passed on")


H.add(repeated, bounds="three grids of a sum and its extension, constituents with 1 arbitrary point each", witnesses=8)
