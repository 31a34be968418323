"""C21: log-log interpolation of attenuation tables."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def table(c, n, edge=None):
    """ascending energies, equal for the pair (edge, edge + 1)"""
    c.decimal_logarithms()
    x = c.mod("ries.nonresonant.xrmac")
    E, A, B = [], [], []
    for i in range(n):
        if edge is not None and i == edge + 1:
            E.append(E[-1])
        else:
            E.append(c.real("E%d" % i, 0, prefer=(0.01 * 4 ** i, 0.02 * 4 ** i)))
            if i:
                c.assume(E[-2] < E[-1])
        A.append(c.real("A%d" % i, 0, prefer=(0.1, 10.0)))
        B.append(c.real("B%d" % i, 0, prefer=(0.1, 10.0)))
    return x.XRMAC(c.array2([[E[i], A[i], B[i]] for i in range(n)])), E, A


def nodes(c):
    n = c.params["n"]
    k, E, A = table(c, n)
    for i in range(n):
        c.eq(k(E[i]), A[i], "tabulated value %d" % i)
    v = k(c.array(E))
    c.eqs(v, A, "array of the tabulated energies")


H.add(nodes, bounds="four points, ascending energies", params={"n": 4})
H.add(nodes, name="nodes_long", bounds="seven points", params={"n": 7}, thorough_only=True)


def between(c):
    n = c.params["n"]
    k, E, A = table(c, n)
    i = c.choice("segment", list(range(n - 1)))
    e = c.real("e", 0, prefer=(0.02 * 4 ** i, 0.03 * 4 ** i))
    c.assume(E[i] < e)
    c.assume(e < E[i + 1])
    v = k(e)
    lo, hi = c.log10(E[i]), c.log10(E[i + 1])
    t = (c.log10(e) - lo) / (hi - lo)
    c.eq(c.log10(v), c.log10(A[i]) * (1 - t) + c.log10(A[i + 1]) * t, "linear in log-log scale", atol=1e-9)
    c.lt(0.0, v, "positive")
    rising = A[i] < A[i + 1]
    if rising:
        c.le(A[i], v, "not below the lower neighbour")
        c.le(v, A[i + 1], "not above the upper neighbour")
    else:
        c.le(A[i + 1], v, "not below the lower neighbour")
        c.le(v, A[i], "not above the upper neighbour")


H.add(between, bounds="three points, all energies in between", params={"n": 3}, witnesses=6)
H.add(between, name="between_long", bounds="six points, all energies in between", params={"n": 6}, thorough_only=True)


def outside(c):
    n = 3
    k, E, A = table(c, n)
    side = c.choice("side", ["below", "above"])
    if side == "below":
        e = c.real("e", 0, prefer=(0.001, 0.009))
        c.assume(e < E[0])
        c.eq(k(e), A[0], "first value below the table")
    else:
        e = c.real("e", 0, prefer=(1.0, 10.0))
        c.assume(e > E[-1])
        c.eq(k(e), A[-1], "last value above the table")
    c.reached(side)


H.add(outside, bounds="three points, all energies outside", reach=["below", "above"])


def edge(c):
    """absorption edge: two values at one energy"""
    at = c.choice("edge", [0, 1, 2])
    k, E, A = table(c, 4, at)
    i = c.choice("segment", [s for s in range(3) if s != at])
    e = c.real("e", 0, prefer=(0.02 * 4 ** i, 0.03 * 4 ** i))
    c.assume(E[i] < e)
    c.assume(e < E[i + 1])
    lo, hi = c.log10(E[i]), c.log10(E[i + 1])
    t = (c.log10(e) - lo) / (hi - lo)
    c.eq(c.log10(k(e)), c.log10(A[i]) * (1 - t) + c.log10(A[i + 1]) * t, "linear next to an edge", atol=1e-9)
    for j in range(4):
        if j not in (at, at + 1):
            c.eq(k(E[j]), A[j], "tabulated value away from the edge")


H.add(edge, bounds="four points with one edge")


def at_edge(c):
    k, E, A = table(c, 4, 1)
    v = k(E[1])
    c.assume(A[1] < A[2])
    c.le(A[1], v, "not below the edge")
    c.le(v, A[2], "not above the edge")


H.add(at_edge, bounds="four points with one edge in the middle, evaluated at the edge")


def arrays(c):
    k, E, A = table(c, 3)
    e = c.real("e", 0, prefer=(0.02, 0.03))
    f = c.real("f", 0, prefer=(0.001, 10.0))
    c.assume(c.all([E[0] < e, e < E[1]]))
    a = c.array([e, f])
    v = k(a)
    c.check(len(v) == 2, "array for array")
    c.eq(v[0], k(e), "first element")
    c.eq(v[1], k(f), "second element")
    c.eqs(a, [e, f], "array of the caller")


H.add(arrays, bounds="three points, two energies, one of them anywhere")


def monotonic(c):
    """between two neighbours larger energies are nearer to the upper neighbour"""
    k, E, A = table(c, 2)
    e = c.real("e", 0, prefer=(0.02, 0.025))
    f = c.real("f", 0, prefer=(0.026, 0.03))
    c.assume(c.all([E[0] < e, e < f, f < E[1], A[0] > A[1]]))
    c.le(k(f), k(e), "falls from the larger to the smaller value")


H.add(monotonic, bounds="two points, two energies in between")


def units(c):
    """scaling the energies or the values scales the interpolation"""
    c.decimal_logarithms()
    x = c.mod("ries.nonresonant.xrmac")
    E = [c.real("E%d" % i, 0, prefer=(0.01 * 4 ** i, 0.02 * 4 ** i)) for i in range(3)]
    c.assume(c.all([E[0] < E[1], E[1] < E[2]]))
    A = [c.pos("A%d" % i) for i in range(3)]
    k, u = c.pos("k"), c.pos("u")
    how = c.choice("how", ["conversion", "data"])
    plain = x.XRMAC(c.array2([[E[i], A[i]] for i in range(3)]))
    if how == "data":
        scaled = x.XRMAC(c.array2([[E[i] * u, A[i] * k] for i in range(3)]))
    else:
        scaled = x.XRMAC(c.array2([[E[i], A[i]] for i in range(3)]), lambda v: v * u, lambda v: v * k)
    i = c.choice("segment", [0, 1])
    e = c.real("e", 0, prefer=(0.02 * 4 ** i, 0.03 * 4 ** i))
    c.assume(c.all([E[i] < e, e < E[i + 1]]))
    c.eq(scaled(e * u), plain(e) * k, "scaled")
    c.eq(scaled(E[i] * u), A[i] * k, "scaled at a tabulated energy")


H.add(units, bounds="three points, arbitrary factors for energies and values")


def integers(c):
    """integer energies, alone and in arrays"""
    k, E, A = table(c, 2)
    e, g = c.int_("e", 1, 40), c.int_("g", 1, 40)
    c.assume(c.all([E[0] < e, e < E[1], E[0] < g, g < E[1]]))
    lo, hi = c.log10(E[0]), c.log10(E[1])
    want = []
    for v in (e, g):
        t = (c.log10(v * 1.0) - lo) / (hi - lo)
        want.append(c.log10(A[0]) * (1 - t) + c.log10(A[1]) * t)
    c.eq(c.log10(k(e)), want[0], "value", atol=1e-9)
    F = c.int_array([e, g])
    v = k(F)
    c.check(len(v) == 2, "array for array")
    c.eq(c.log10(v[0]), want[0], "first element", atol=1e-9)
    c.eq(c.log10(v[1]), want[1], "second element", atol=1e-9)
    c.eqs(F, [e, g], "energies of the caller")


H.add(integers, bounds="two points, two integer energies in between")


def integer_table(c):
    """tables of integers, converted to other units"""
    c.decimal_logarithms()
    x = c.mod("ries.nonresonant.xrmac")
    E = [c.int_("E%d" % i, 1, 40) for i in range(2)]
    A = [c.int_("A%d" % i, 1, 40) for i in range(2)]
    c.assume(E[0] < E[1])
    u, k = c.pos("u"), c.pos("k")
    rows = [[E[i], A[i]] for i in range(2)]
    kept = [list(r) for r in rows]
    t = x.XRMAC(rows, lambda v: v * u, lambda v: v * k)
    for i in range(2):
        c.eq(t(E[i] * u), A[i] * k, "tabulated value %d" % i)
        c.eqs(rows[i], kept[i], "table of the caller")


H.add(integer_table, bounds="two points of integers, arbitrary factors for energies and values")
