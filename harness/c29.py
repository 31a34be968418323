"""C29: evaluation is elementwise, repeatable and independent of history."""
from .common import HarnessTable, KINDS, leaf, resonance

HARNESSES = H = HarnessTable()


def make_resonance(kind):
    def make(c, pfx):
        r = resonance(c, kind, pfx=pfx, n_widths=1)
        return r.res, lambda E: r.integrated * r.spec.pdf(E), r.Er

    return make


def make_kn(c, pfx):
    kn = c.mod("ries.nonresonant.klein_nishina")
    Z = c.real(pfx + "Z", 0, prefer=(1.0, 90.0))
    m = c.real(pfx + "mc2", 0, prefer=(0.3, 3.0))
    return kn.KleinNishina(Z, m), None, m


def make_xrmac(c, pfx):
    c.decimal_logarithms()
    x = c.mod("ries.nonresonant.xrmac")
    E = c.real(pfx + "E0", 0, prefer=(0.01, 0.02))
    F = E * 9
    A, B = c.pos(pfx + "A"), c.pos(pfx + "B")
    return x.XRMAC(c.array2([[E, A], [F, B]])), None, E * 3


def make_sum(c, pfx):
    cs = c.mod("ries.cross_section")
    E = c.real("unused", prefer=(0.1, 1.0))
    a, _ = leaf(c, pfx + "l", E)
    b, _ = leaf(c, pfx + "m", E)
    k = c.real(pfx + "k", prefer=(-3.0, 3.0))
    s = (a + b) * k + 1.5
    return s, None, c.real(pfx + "at", 0, prefer=(0.1, 10.0))


def make_mixed(c, pfx):
    """sum of a resonance and a nonresonant cross section"""
    r = resonance(c, "BreitWigner", pfx=pfx, n_widths=1)
    kn, _, m = make_kn(c, pfx)
    return r.res * 2.0 + kn, None, r.Er


def make_constant(c, pfx):
    cs = c.mod("ries.cross_section")
    k = c.real(pfx + "k", prefer=(-3.0, 3.0))
    return cs.ConstantCrossSection(k), lambda E: k, c.real(pfx + "at", 0, prefer=(0.1, 10.0))


MAKERS = {k: make_resonance(k) for k in KINDS}
MAKERS.update(KleinNishina=make_kn, XRMAC=make_xrmac, Sum=make_sum, Mixed=make_mixed, Constant=make_constant)


def near(c, name, at):
    """an arbitrary energy, described relative to a typical one"""
    return at * c.real(name, 0, prefer=(0.7, 1.4))


def history(c):
    make = MAKERS[c.params["kind"]]
    a, spec, at = make(c, "a")
    b, spec_b, bt = make(c, "b")
    e, f = near(c, "e", at), near(c, "f", at)
    first = a(e)
    if spec is not None and c.params["kind"] != "Resonance":
        c.eq(first, spec(e), "value", atol=1e-300)
    other = b(e)
    step = c.choice("between", ["other energy", "other object", "array", "grid", "new object"])
    if step == "other energy":
        a(f)
    elif step == "other object":
        c.eq(b(e), other, "other object again", rtol=1e-10)
        b(f)
    elif step == "array":
        E = c.array([f, e])
        v = a(E)
        if c.params["kind"] != "Constant":
            c.check(len(v) == 2, "array for array")
            c.eq(v[1], first, "second element", rtol=1e-10)
            c.eq(v[0], a(f), "first element", rtol=1e-10)
        c.eqs(E, [f, e], "array of the caller")
        w = b(E)
        if c.params["kind"] != "Constant":
            c.eq(w[1], other, "second element of the other object", rtol=1e-10)
    elif step == "grid":
        a.equidistant_energy_grid((at * 0.5, at * 2), 3)
        b.equidistant_energy_grid((at * 0.5, at * 2), 4)
    else:
        make(c, "b")[0](f)
    c.eq(a(e), first, "repeated evaluation", rtol=1e-10)
    c.eq(b(e), other, "repeated evaluation of the other object", rtol=1e-10)
    c.reached(step)


STEPS = ["other energy", "other object", "array", "grid", "new object"]
for k in MAKERS:
    H.add(history, name="history_" + k, bounds="two objects, all parameters and energies, five kinds of steps between two evaluations", params={"kind": k}, reach=STEPS, feas_ms=300, budget=400)


def long_array(c):
    make = MAKERS[c.params["kind"]]
    a, spec, at = make(c, "a")
    es = [near(c, "e%d" % i, at) for i in range(4)]
    E = c.array(es)
    v = a(E)
    c.check(len(v) == 4, "array for array")
    for i in (0, 1, 2, 3):
        c.eq(v[i], a(es[i]), "element %d" % i, rtol=1e-10)
    c.eqs(E, es, "array of the caller")


for k in MAKERS:
    if k not in ("Constant", "Resonance", "XRMAC", "KleinNishina", "Mixed"):
        H.add(long_array, name="array_" + k, bounds="arrays of four energies", params={"kind": k})
for k in ("Resonance", "XRMAC", "KleinNishina", "Mixed"):
    H.add(long_array, name="array_" + k, bounds="arrays of four energies", params={"kind": k}, thorough_only=True, max_paths=3000, budget=700)


def integers(c):
    """integer numbers and integer arrays are energies like any others"""
    make = MAKERS[c.params["kind"]]
    a, _, _ = make(c, "a")
    e, f = c.int_("e", 1, 40), c.int_("f", 1, 40)
    x, y = a(e * 1.0), a(f * 1.0)
    if c.choice("form", ["number", "array"]) == "number":
        c.eq(a(e), x, "value at an integer", rtol=1e-10)
        return
    E = c.int_array([e, f])
    v = a(E)
    c.check(len(v) == 2, "array for array")
    c.eq(v[0], x, "first element", rtol=1e-10)
    c.eq(v[1], y, "second element", rtol=1e-10)
    c.eqs(E, [e, f], "array of the caller")


for k in MAKERS:
    if k != "Constant":
        H.add(integers, name="integers_" + k, bounds="two integer energies from 1 to 40", params={"kind": k}, feas_ms=300, budget=200)


def shapes(c):
    """two-dimensional arrays and arrays of length one"""
    make = MAKERS[c.params["kind"]]
    a, _, at = make(c, "a")
    e, f = near(c, "e", at), near(c, "f", at)
    x, y = a(e), a(f)
    if c.choice("form", ["one element", "two rows"]) == "one element":
        v = a(c.array([e]))
        c.check(tuple(v.shape) == (1,), "shape of the result")
        c.eq(v[0], x, "element", rtol=1e-10)
        return
    v = a(c.array2([[e], [f]]))
    c.check(tuple(v.shape) == (2, 1), "shape of the result")
    c.eq(v[0][0], x, "first row", rtol=1e-10)
    c.eq(v[1][0], y, "second row", rtol=1e-10)


for k in MAKERS:
    if k != "Constant":
        H.add(shapes, name="shapes_" + k, bounds="arrays of shape (1,) and (2, 1)", params={"kind": k}, feas_ms=300, budget=200)
