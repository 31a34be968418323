"""C27: partitioned integration."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def integrand(c, dim):
    p = [c.real("p%d" % i, prefer=(-2.0, 2.0)) for i in range(4)]
    q = [c.real("q%d" % i, prefer=(-2.0, 2.0)) for i in range(2)]

    def f(x, *rest):
        v = p[0] + x * (p[1] + x * (p[2] + x * p[3]))
        for i, y in enumerate(rest):
            v = v * (1 + q[i] * y) + (i + 1) * y * y
        return v

    def F(a, b, lims):
        """exact integral"""

        def line(g, lo, hi):
            m = (lo + hi) / 2
            return (hi - lo) / 6 * (g(lo) + 4 * g(m) + g(hi))

        if not lims:
            return line(f, a, b)
        if len(lims) == 1:
            return line(lambda y: line(lambda x: f(x, y), a, b), *lims[0])
        return line(lambda z: line(lambda y: line(lambda x: f(x, y, z), a, b), *lims[0]), *lims[1])

    return f, F


def points(c, n, ascending):
    x = [c.real("x0", prefer=(-2.0, 0.0))]
    for i in range(1, n):
        if ascending:
            x.append(x[-1] + c.real("d%d" % i, 0, prefer=(0.1, 1.0)))
        else:
            x.append(c.real("x%d" % i, prefer=(-2.0, 2.0)))
    return x


def total(c):
    calls = c.cubature()
    m = c.mod("ries.integration.quad_partition")
    n = c.choice("points", c.params["points"])
    dim = c.choice("dimensions", c.params["dims"])
    x = points(c, n, c.params["ascending"])
    lims = []
    for k in range(dim - 1):
        lo = c.real("lo%d" % k, prefer=(-1.0, 0.0))
        # limits may be in descending order as well
        w = c.real("w%d" % k, 0, prefer=(0.1, 1.0)) if c.params["ascending"] else c.real("w%d" % k, prefer=(-1.0, 1.0))
        lims.append([lo, lo + w])
    f, F = integrand(c, dim)
    how = c.choice("limits", ["lists", "arrays"])
    given = [list(l) for l in lims] if how == "lists" else c.array2(lims) if lims else []
    x0 = list(x) if how == "lists" else c.array(x)
    if dim == 1:
        r = m.quad_partition(f, x0)
    else:
        r = m.quad_partition(f, x0, given)
    c.check(len(r) == 2, "integral and uncertainty")
    c.eq(r[0], F(x[0], x[-1], lims), "integral over the whole interval", atol=1e-7)
    var = 0.0
    for _, _, err in calls:
        var = var + err * err
    c.eq(r[1] * r[1], var, "uncertainties in quadrature", rtol=1e-6, atol=1e-30)
    c.le(0.0, r[1], "uncertainty is not negative")
    for l, _, _ in calls:
        c.check(len(l) == dim, "dimensions of a cell")
        for k in range(dim - 1):
            c.eq(l[1 + k][0], lims[k][0], "lower limit of another variable")
            c.eq(l[1 + k][1], lims[k][1], "upper limit of another variable")
    for k in range(dim - 1):
        c.eqs(given[k], lims[k], "limits of the caller")
    c.eqs(list(x0), x, "partition of the caller")
    c.check(len(given) == dim - 1, "number of limits of the caller")
    c.reached("%s%d" % (how, dim))


H.add(total, bounds="two to five partition points in ascending order, one to three variables, integrands of third degree", params={"points": [2, 3, 5], "dims": [1, 2, 3], "ascending": True}, reach=["lists1", "arrays1", "lists2", "arrays2", "lists3", "arrays3"], witnesses=8, rtol=1e-6)
H.add(total, name="any_order", bounds="three or four partition points and limits of the other variable in any order, one or two variables", params={"points": [3, 4], "dims": [1, 2], "ascending": False}, rtol=1e-6)
H.add(total, name="many", bounds="up to nine partition points", params={"points": [7, 9], "dims": [1, 2], "ascending": True}, rtol=1e-6, thorough_only=True)


def cells(c):
    """every cell is integrated by its own: calls and their sum"""
    calls = c.cubature()
    m = c.mod("ries.integration.quad_partition")
    x = points(c, 4, True)
    f, F = integrand(c, 1)
    r = m.quad_partition(f, c.array(x))
    s = 0.0
    for _, v, _ in calls:
        s = s + v
    c.eq(r[0], s, "sum over the cells", atol=1e-9)
    c.check(len(calls) == 3, "one integration per cell")
    # in any order
    for i in range(3):
        near = [[l[0][0] - x[i], l[0][1] - x[i + 1]] for l, _, _ in calls]
        found = [c.all([a < 1e-9, a > -1e-9, b < 1e-9, b > -1e-9]) for a, b in near]
        c.check(c.any(found), "cell %d is integrated" % i)


H.add(cells, bounds="four partition points")


def repeated(c):
    """limits given in one call do not appear in the next one"""
    calls = c.cubature()
    m = c.mod("ries.integration.quad_partition")
    x = points(c, 3, True)
    f, F = integrand(c, 2)
    lo = c.real("lo", prefer=(-1.0, 0.0))
    lims = [[lo, lo + c.real("w", 0, prefer=(0.1, 1.0))]]
    order = c.choice("order", ["12", "21", "11", "22"])
    for k in order:
        if k == "1":
            r = m.quad_partition(f, c.array(x))
            c.eq(r[0], F(x[0], x[-1], []), "one variable", atol=1e-7)
        else:
            r = m.quad_partition(f, c.array(x), lims)
            c.eq(r[0], F(x[0], x[-1], lims), "two variables", atol=1e-7)
    c.check(len(lims) == 1, "limits of the caller")


H.add(repeated, bounds="two calls in any order", rtol=1e-6)
