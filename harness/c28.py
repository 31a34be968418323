"""C28: states and isotopes."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def labels(c, k=""):
    return c.choice("label" + k, ["0^+_1", "3/2^-_2"]), c.int_("two_J" + k, 0, 20), c.choice("parity" + k, [1, -1])


def ground(c):
    s = c.mod("ries.constituents.state")
    l, j, p = labels(c)
    g = s.GroundState(l, j, p)
    c.check(g.J_pi == l, "label")
    c.eq(g.two_J, j, "spin")
    c.check(g.parity == p, "parity")
    c.eq(g.excitation_energy, 0.0, "excitation energy of a ground state")


H.add(ground, bounds="all spins 0..10, both parities")


def widths(c, n, k=""):
    return {"s%d" % i: c.real("g%s%d" % (k, i), 0, strict=False, prefer=(1e-6, 1e-3)) for i in range(n)}


def total(d):
    t = 0.0
    for v in d.values():
        t = t + v
    return t


def same_state(c, x, l, j, p, E, d, what):
    c.check(x.J_pi == l, what + ": label")
    c.eq(x.two_J, j, what + ": spin")
    c.check(x.parity == p, what + ": parity")
    c.eq(x.excitation_energy, E, what + ": excitation energy")
    c.check(list(x.partial_widths) == list(d), what + ": channels")
    for k in d:
        c.eq(x.partial_widths[k], d[k], what + ": partial width")
    c.eq(x.width, total(d), what + ": total width")
    c.le(0.0, x.width, what + ": width is not negative")


def excited(c):
    s = c.mod("ries.constituents.state")
    l, j, p = labels(c)
    E = c.real("E", 0, prefer=(0.1, 20.0))
    d = widths(c, c.choice("channels", [0, 1, 2, 3] if not c.thorough else [0, 1, 2, 3, 6, 10]))
    given = dict(d)
    x = s.State(l, j, p, E, given)
    same_state(c, x, l, j, p, E, d, "state")
    c.check(list(given) == list(d), "channels of the caller")
    for k in d:
        c.eq(given[k], d[k], "partial width of the caller")
    c.check(isinstance(x, s.GroundState), "also a ground state by type")


H.add(excited, bounds="zero to three partial widths, all spins, energies and widths", max_paths=200)


def two_states(c):
    s = c.mod("ries.constituents.state")
    l1, j1, p1 = "1^-_1", c.int_("j1", 0, 20), c.choice("p1", [1, -1])
    l2, j2, p2 = "2^+_1", c.int_("j2", 0, 20), c.choice("p2", [1, -1])
    E1, E2 = c.real("E1", 0, prefer=(0.1, 20.0)), c.real("E2", 0, prefer=(0.1, 20.0))
    d1, d2 = widths(c, c.choice("n1", [1, 2]), "a"), widths(c, c.choice("n2", [1, 2]), "b")
    order = c.choice("order", ["1g2", "g12", "12g", "21g"])
    out = {}
    for k in order:
        if k == "1":
            out[k] = s.State(l1, j1, p1, E1, dict(d1))
        elif k == "2":
            out[k] = s.State(l2, j2, p2, E2, dict(d2))
        else:
            out[k] = s.GroundState("0^+_1", 0, 1)
    same_state(c, out["1"], l1, j1, p1, E1, d1, "first")
    same_state(c, out["2"], l2, j2, p2, E2, d2, "second")
    c.eq(out["g"].excitation_energy, 0.0, "excitation energy of the ground state")
    c.check(out["g"].J_pi == "0^+_1" and out["g"].two_J == 0 and out["g"].parity == 1, "ground state")


H.add(two_states, bounds="two excited states with up to two partial widths each and a ground state, in four orders of creation", max_paths=400)


def shared_widths(c):
    """the same dictionary for two states"""
    s = c.mod("ries.constituents.state")
    d = widths(c, 2)
    E1, E2 = c.real("E1", 0, prefer=(0.1, 20.0)), c.real("E2", 0, prefer=(0.1, 20.0))
    a = s.State("1^-_1", 2, -1, E1, d)
    b = s.State("2^+_1", 4, 1, E2, d)
    same_state(c, a, "1^-_1", 2, -1, E1, d, "first")
    same_state(c, b, "2^+_1", 4, 1, E2, d, "second")


H.add(shared_widths, bounds="two states")


def isotope(c):
    i = c.mod("ries.constituents.isotope")
    s = c.mod("ries.constituents.state")
    m1, m2 = c.real("m1", 0, prefer=(1.0, 240.0)), c.real("m2", 0, prefer=(1.0, 240.0))
    g = s.GroundState("0^+_1", 0, 1)
    x = s.State("1^-_1", 2, -1, c.real("E", 0, prefer=(0.1, 20.0)), widths(c, 2))
    how = c.choice("given", ["nothing", "ground", "states", "keywords", "empty"])
    states = [x]
    if how == "nothing":
        a = i.Isotope("6Li", m1)
    elif how == "ground":
        a = i.Isotope("6Li", m1, g)
    elif how == "states":
        a = i.Isotope("6Li", m1, g, states)
    elif how == "empty":
        a = i.Isotope("6Li", m1, g, [])
    else:
        a = i.Isotope("6Li", m1, excited_states=states, ground_state=g)
    b = i.Isotope("7Li", m2)
    d = i.Isotope("8Li", m2)
    # extending one of them
    b.excited_states.append(x)
    b.ground_state = g
    c.check(a.AX == "6Li" and b.AX == "7Li" and d.AX == "8Li", "names")
    c.eq(a.amu, m1, "mass of the first isotope")
    c.eq(b.amu, m2, "mass of the second isotope")
    c.check(a.ground_state is (None if how == "nothing" else g), "ground state")
    c.check(len(a.excited_states) == (1 if how in ("states", "keywords") else 0), "excited states")
    if a.excited_states:
        c.check(a.excited_states[0] is x, "excited state")
    c.check(len(b.excited_states) == 1 and b.excited_states[0] is x, "extended isotope")
    c.check(len(d.excited_states) == 0 and d.ground_state is None, "isotope created afterwards")
    n = i.Isotope("9Li", m2)
    c.check(len(n.excited_states) == 0, "isotope created after the extension")
    c.check(len(states) == 1, "list of the caller")
    c.reached(how)


H.add(isotope, bounds="three isotopes, with and without states", reach=["nothing", "ground", "states", "keywords", "empty"])


def several_states(c):
    """all given states are kept, in their order or under their names"""
    i = c.mod("ries.constituents.isotope")
    s = c.mod("ries.constituents.state")
    n = c.choice("n", [1, 2, 3, 5])
    E = [c.real("E%d" % k, 0, prefer=(0.1, 20.0)) for k in range(n)]
    names = ["%d^-_1" % (k + 1) for k in range(n)]
    states = [s.State(names[k], 2 * k + 2, -1, E[k], {"0^+_1": c.real("w%d" % k, 0, prefer=(1e-6, 1.0))}) for k in range(n)]
    named = c.choice("container", ["list", "dictionary"]) == "dictionary"
    a = i.Isotope("6Li", 6.0, None, dict(zip(names, states)) if named else states)
    c.check(len(a.excited_states) == n, "number of states")
    got = [a.excited_states[k] for k in (names if named else range(n))]
    for k in range(n):
        c.eq(got[k].excitation_energy, E[k], "excitation energy of state %d" % k)
        c.check(got[k].J_pi == names[k], "name of state %d" % k)


H.add(several_states, bounds="one to five states in a list or dictionary")
