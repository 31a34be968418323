"""C26: Darboux sums."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def grid(c, n, order="ascending"):
    x = [c.real("x0", prefer=(-3.0, 0.0))]
    for i in range(1, n):
        x.append(x[-1] + c.real("d%d" % i, 0, strict=False, prefer=(0.05, 2.0)))
    return x


def smaller(c, a, b):
    return a if a <= b else b


def values(c):
    """lower sum and distance to the upper sum, cell by cell"""
    m = c.mod("ries.integration.darboux")
    n = c.params["n"]
    x = grid(c, n)
    y = [c.real("y%d" % i, prefer=(-3.0, 3.0)) for i in range(n)]
    lower = upper = 0.0
    for i in range(n - 1):
        lo = smaller(c, y[i], y[i + 1])
        hi = y[i] + y[i + 1] - lo
        lower = lower + lo * (x[i + 1] - x[i])
        upper = upper + hi * (x[i + 1] - x[i])
    X, Y = c.array(x), c.array(y)
    s, d = m.darboux(Y, X)
    c.eq(s, lower, "lower sum", atol=1e-9)
    c.eq(d, upper - lower, "distance to the upper sum", atol=1e-9)
    c.le(0.0, d, "distance is not negative")
    c.eqs(X, x, "grid of the caller")
    c.eqs(Y, y, "values of the caller")


H.add(values, bounds="four points, any values, any non-negative distances", params={"n": 4}, max_paths=200)
H.add(values, name="values_two", bounds="two points", params={"n": 2})
H.add(values, name="values_long", bounds="seven points", params={"n": 7}, thorough_only=True, max_paths=800)


def descending(c):
    """points in descending order: signed cells, distance is still an absolute value"""
    m = c.mod("ries.integration.darboux")
    n = c.params["n"]
    x = grid(c, n)[::-1]
    y = [c.real("y%d" % i, prefer=(-3.0, 3.0)) for i in range(n)]
    lower = upper = 0.0
    for i in range(n - 1):
        lo = smaller(c, y[i], y[i + 1])
        lower = lower + lo * (x[i + 1] - x[i])
        upper = upper + (y[i] + y[i + 1] - lo) * (x[i + 1] - x[i])
    s, d = m.darboux(c.array(y), c.array(x))
    c.eq(s, lower, "sum of the smaller values", atol=1e-9)
    c.eq(d, lower - upper, "distance to the sum of the larger values", atol=1e-9)
    c.le(0.0, d, "distance is not negative")


H.add(descending, bounds="four points in descending order", params={"n": 4}, max_paths=200)


def bracket(c):
    """integral of a function that is linear, or jumps, within the cells"""
    m = c.mod("ries.integration.darboux")
    n = 4
    x = grid(c, n)
    y = [c.real("y%d" % i, prefer=(-3.0, 3.0)) for i in range(n)]
    s, d = m.darboux(c.array(y), c.array(x))
    integral = 0.0
    for i in range(n - 1):
        # a monotonic function has its mean anywhere between the end values
        t = c.real("t%d" % i, 0, 1, strict=False, prefer=(0.0, 1.0))
        integral = integral + (y[i] * (1 - t) + y[i + 1] * t) * (x[i + 1] - x[i])
    c.le(s, integral, "lower sum not above the integral", atol=1e-9)
    c.le(integral, s + d, "upper sum not below the integral", atol=1e-9)


H.add(bracket, bounds="four points, any mean value within each cell", max_paths=200)


def function(c):
    """function or its values"""
    m = c.mod("ries.integration.darboux")
    n = c.params["n"]
    x = grid(c, n)
    p = [c.real("p%d" % i, prefer=(-2.0, 2.0)) for i in range(3)]
    f = lambda v: p[0] + p[1] * v + p[2] * v * v
    X = c.array(x)
    a = m.darboux(f, X)
    c.eqs(X, x, "grid of the caller")
    b = m.darboux(c.array([f(v) for v in x]), X)
    c.eq(a[0], b[0], "lower sum", atol=1e-9)
    c.eq(a[1], b[1], "distance", atol=1e-9)


H.add(function, bounds="three points, any parabola", params={"n": 3}, max_paths=200)


def scaled(c):
    """positive factors and constants added to the function"""
    m = c.mod("ries.integration.darboux")
    n = 3
    x = grid(c, n)
    y = [c.real("y%d" % i, prefer=(-3.0, 3.0)) for i in range(n)]
    k, a = c.pos("k"), c.real("a", prefer=(-2.0, 2.0))
    s, d = m.darboux(c.array(y), c.array(x))
    s2, d2 = m.darboux(c.array([k * v + a for v in y]), c.array(x))
    c.eq(s2, k * s + a * (x[-1] - x[0]), "lower sum", atol=1e-9)
    c.eq(d2, k * d, "distance", atol=1e-9)
    s3, d3 = m.darboux(c.array([-v for v in y]), c.array(x))
    c.eq(s3, -(s + d), "lower sum of the negative function", atol=1e-9)
    c.eq(d3, d, "distance of the negative function", atol=1e-9)


H.add(scaled, bounds="three points", max_paths=200)


def refined(c):
    """a further point never loosens the bracket if its value lies between its neighbours"""
    m = c.mod("ries.integration.darboux")
    x = grid(c, 3)
    y = [c.real("y%d" % i, prefer=(-3.0, 3.0)) for i in range(3)]
    c.assume(c.any([c.all([y[0] <= y[1], y[1] <= y[2]]), c.all([y[0] >= y[1], y[1] >= y[2]])]))
    s, d = m.darboux(c.array(y), c.array(x))
    s0, d0 = m.darboux(c.array([y[0], y[2]]), c.array([x[0], x[2]]))
    c.le(s0, s, "lower sum does not decrease", atol=1e-9)
    c.le(d, d0, "distance does not increase", atol=1e-9)


H.add(refined, bounds="two cells from one", max_paths=200)


def repeated(c):
    """results do not depend on earlier calls"""
    m = c.mod("ries.integration.darboux")
    x, y = grid(c, 3), [c.real("y%d" % i, prefer=(-3.0, 3.0)) for i in range(3)]
    z = [c.real("z%d" % i, prefer=(-3.0, 3.0)) for i in range(2)]
    first = m.darboux(c.array(y), c.array(x))
    m.darboux(c.array(z), c.array(x[:2]))
    again = m.darboux(c.array(y), c.array(x))
    c.eq(first[0], again[0], "lower sum again")
    c.eq(first[1], again[1], "distance again")


H.add(repeated, bounds="three calls", max_paths=200)


def integers(c):
    """integer points or values are numbers like any others"""
    m = c.mod("ries.integration.darboux")
    n = 3
    ints = c.choice("integers", ["points", "values", "both"])
    x = [c.int_("x0", -5, 5)]
    y = []
    for i in range(n):
        if i:
            x.append(x[-1] + c.int_("d%d" % i, 0, 5))
        y.append(c.real("y%d" % i, prefer=(-3.0, 3.0)) if ints == "points" else c.int_("n%d" % i, -5, 5))
    if ints == "values":
        x = [v * 0.25 for v in x]
    lower = upper = 0.0
    for i in range(n - 1):
        lo = smaller(c, y[i], y[i + 1])
        lower = lower + lo * (x[i + 1] - x[i])
        upper = upper + (y[i] + y[i + 1] - lo) * (x[i + 1] - x[i])
    X = c.array(x) if ints == "values" else c.int_array(x)
    Y = c.array(y) if ints == "points" else c.int_array(y)
    s, d = m.darboux(Y, X)
    c.eq(s, lower, "lower sum", atol=1e-9)
    c.eq(d, upper - lower, "distance to the upper sum", atol=1e-9)
    k = c.real("k", prefer=(0.1, 0.9))
    s, d = m.darboux(lambda v: v * k, X)
    c.eq(s + d / 2, k * (x[-1] * x[-1] - x[0] * x[0]) / 2, "mean of the sums of a linear function", atol=1e-9)


H.add(integers, bounds="three integer points and/or values", max_paths=300)
