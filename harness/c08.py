"""C08: cross section = integrated cross section times line shape; relative energies."""
from .common import HarnessTable, resonance, KINDS

HARNESSES = H = HarnessTable()


def value(c):
    kind = c.params["kind"]
    final = c.choice("final", [None, 0, 1])
    recoil = c.choice("recoil", [None, 1]) if kind == "Resonance" else None
    r = resonance(c, kind, n_widths=2, excited_initial=c.choice("excited", [False, True]), final=final, recoil=recoil)
    mode = c.choice("mode", ["absolute", "relative", "relative positional"])
    shape = c.choice("shape", ["scalar", "array"])
    n = 1 if shape == "scalar" else 2
    xs = [c.real("x%d" % i, prefer=(-3.0, 3.0)) for i in range(n)]
    if kind == "Resonance":
        # avoid the edges of the uniform distribution, where rounding decides
        for x in xs:
            c.assume(c.all([x != -0.5, x != 0.5]))
    xa = [x + r.Er for x in xs]
    arg = xs if mode != "absolute" else xa
    E = c.array(arg) if shape == "array" else arg[0]
    if mode == "absolute":
        v = r.res(E)
    elif mode == "relative":
        v = r.res(E, input_is_absolute_energy=False)
    else:
        v = r.res(E, False)
    want = [r.integrated * r.spec.pdf(x) for x in xa]
    if shape == "array":
        c.eqs(v, want, "values")
        c.eqs(E, arg, "energies of the caller")
    else:
        c.eq(v, want[0], "value")
    c.eq(r.res.energy_integrated_cross_section, r.integrated, "energy-integrated cross section")
    c.reached(mode)


for k in KINDS:
    H.add(value, name="value_" + k, params={"kind": k}, reach=["absolute", "relative"], witnesses=20, rtol=1e-6,
          bounds="scalars and arrays of two energies, two partial widths, with and without final state, recoil, excited initial state")


def same_object(c):
    """both conventions, in any order, on the same object"""
    kind = c.params["kind"]
    r = resonance(c, kind, n_widths=1)
    x = c.real("x", prefer=(-1.0, 1.0))
    if kind == "Resonance":
        c.assume(c.all([x != -0.5, x != 0.5]))
    E = c.array([x, x + 1.0])
    order = c.choice("order", [[0, 1, 0], [1, 0, 1], [1, 1, 0]])
    for j in order:
        if j:
            v = r.res(E, input_is_absolute_energy=False)
            c.eq(v[0], r.integrated * r.spec.pdf(x + r.Er), "relative")
        else:
            v = r.res(r.Er + x)
            c.eq(v, r.integrated * r.spec.pdf(x + r.Er), "absolute")
    c.eqs(E, [x, x + 1.0], "energies of the caller")


for k in KINDS:
    H.add(same_object, name="order_" + k, params={"kind": k}, bounds="three evaluations of the same object", witnesses=4, rtol=1e-6)


def same_number(c):
    """the same number as an absolute and as a relative energy"""
    kind = c.params["kind"]
    r = resonance(c, kind, n_widths=1)
    e = c.real("e", 0, prefer=(0.1, 1.0))
    if kind == "Resonance":
        for x in (e, e - r.Er):
            c.assume(c.all([x != -0.5, x != 0.5]))
    for j in c.choice("order", [[0, 1, 0], [1, 0, 1]]):
        if j:
            c.eq(r.res(e, input_is_absolute_energy=False), r.integrated * r.spec.pdf(e + r.Er), "relative")
        else:
            c.eq(r.res(e), r.integrated * r.spec.pdf(e), "absolute")


for k in KINDS:
    H.add(same_number, name="number_" + k, params={"kind": k}, bounds="three evaluations of the same object with the same number", witnesses=4, rtol=1e-6)
