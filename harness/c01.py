"""C01: cross-section algebra is linear at every energy."""
from .common import leaf, HarnessTable

HARNESSES = H = HarnessTable()


def build(c, d, tag, leaves, depth):
    """a composed cross section together with its expected value at E"""
    cs = c.mod("ries.cross_section")
    if depth == 0:
        return leaves.pop()
    op = c.choice(tag + ".op", ["leaf", "add", "mul", "rmul", "addnum", "raddnum"])
    if op == "leaf":
        return leaves.pop()
    if op == "add":
        a, va = build(c, d, tag + "l", leaves, depth - 1)
        b, vb = build(c, d, tag + "r", leaves, depth - 1)
        return a + b, va + vb
    a, va = build(c, d, tag + "x", leaves, depth - 1)
    k = c.real(tag + ".k", prefer=(-3, 3))
    if op == "mul":
        return a * k, va * k
    if op == "rmul":
        return k * a, va * k
    if op == "addnum":
        return a + k, va + k
    return k + a, va + k


def expr(c):
    d = c.params["depth_thorough"] if c.thorough else c.params["depth"]
    E = c.pos("E")
    leaves = [leaf(c, "f%d" % i, E) for i in range(2 ** d)]
    x, v = build(c, d, "t", leaves, d)
    c.eq(x(E), v, "value of the expression", atol=1e-9)
    c.reached("evaluated")


H.add(expr, bounds="expression trees of depth 2 (thorough: 2) over +, *c, c*, +c, c+ with up to 4 leaves; all real values, factors and energies E > 0",
      params={"depth": 2, "depth_thorough": 2}, reach=["evaluated"], witnesses=30)


def weighted_sum(c):
    """the weighted sum constructed directly"""
    cs = c.mod("ries.cross_section")
    E = c.pos("E")
    n = c.choice("n", [0, 1, 2, 3])
    with_factors = c.choice("factors", [True, False])
    lv = [leaf(c, "f%d" % i, E) for i in range(n)]
    ks = [c.real("k%d" % i, prefer=(-3, 3)) for i in range(n)]
    if with_factors:
        s = cs.CrossSectionWeightedSum([l for l, _ in lv], ks)
        want = sum((k * v for k, (_, v) in zip(ks, lv)), 0.0)
    else:
        s = cs.CrossSectionWeightedSum([l for l, _ in lv])
        want = sum((v for _, v in lv), 0.0)
    c.eq(s(E), want, "value of the weighted sum", atol=1e-9)
    q = c.real("q", prefer=(-3, 3))
    c.eq((s * q + q)(E), want * q + q, "scaled weighted sum plus number", atol=1e-9)
    c.eq((s + s)(E), 2 * want, "sum added to itself", atol=1e-9)
    c.reached("n%d" % n)


H.add(weighted_sum, bounds="0..3 constituents, with and without factors", reach=["n0", "n3"])


def constant(c):
    cs = c.mod("ries.cross_section")
    k = c.real("k", prefer=(-3, 3))
    E = c.pos("E")
    f = cs.ConstantCrossSection(k)
    c.eq(f(E), k, "constant cross section")
    q = c.real("q", prefer=(-3, 3))
    c.eq((q * f + k)(E), q * k + k, "scaled constant plus number", atol=1e-9)
    c.eq((0.0 + f)(E), k, "sum() start value")
    c.eq(sum([f, f, f])(E), 3 * k, "builtin sum")


H.add(constant, bounds="all constants")


def number_types(c):
    """numbers of other types than float"""
    import fractions
    import numpy

    E = c.pos("E")
    f, v = leaf(c, "f", E)
    g, w = leaf(c, "g", E)
    which = c.choice("type", ["int", "numpy int", "numpy float", "single", "fraction"])
    k = {
        "int": lambda: c.int_("k", -3, 3), "numpy int": lambda: numpy.int64(3), "numpy float": lambda: numpy.float64(2.5),
        "single": lambda: numpy.float32(1.5), "fraction": lambda: fractions.Fraction(3, 4),
    }[which]()
    q = k if which == "int" else float(k)
    c.eq((f + k)(E), v + q, "cross section plus number", atol=1e-9)
    c.eq((k + f)(E), v + q, "number plus cross section", atol=1e-9)
    c.eq((f * k)(E), v * q, "cross section times number", atol=1e-9)
    c.eq((k * f)(E), v * q, "number times cross section", atol=1e-9)
    s = f + g
    c.eq((s + k)(E), v + w + q, "sum plus number", atol=1e-9)
    c.eq((k + s)(E), v + w + q, "number plus sum", atol=1e-9)
    c.eq((s * k)(E), (v + w) * q, "sum times number", atol=1e-9)
    c.eq((k * s)(E), (v + w) * q, "number times sum", atol=1e-9)
    c.reached(which)


H.add(number_types, bounds="all integers up to 3; one number each of the numpy types and one fraction", reach=["int", "numpy int", "numpy float", "single", "fraction"])
