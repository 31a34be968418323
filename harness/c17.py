"""C17: Compton kinematics."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def setup(c):
    kn = c.mod("ries.nonresonant.klein_nishina")
    E = c.real("E", 0, prefer=(0.01, 20.0))
    which = c.choice("mass", ["default", "own"])
    if which == "default":
        mc2 = c.const("electron mass energy equivalent in MeV")
        k = kn.KleinNishina(c.real("Z", 0, prefer=(1.0, 90.0)))
    else:
        mc2 = c.real("mc2", 0, prefer=(0.05, 2000.0))
        k = kn.KleinNishina(c.real("Z", 0, prefer=(1.0, 90.0)), mc2)
    return kn.KleinNishina, k, E, mc2, which


def angle(c, name="theta"):
    t = c.real(name, 0, prefer=(0.02, 3.1))
    c.assume(t < c.pi)
    return t


def ratio(c):
    K, k, E, mc2, which = setup(c)
    end = c.choice("end", ["inside", "forward", "backward"])
    t = {"inside": lambda: angle(c), "forward": lambda: 0.0, "backward": lambda: c.pi}[end]()
    want = 1 / (1 + E / mc2 * (1 - c.cos(t)))
    args = () if which == "default" else (mc2,)
    for obj in (K, k):
        v = obj.Ep_over_E(E, t, *args)
        c.eq(v, want, "ratio of the energies")
        if args:
            c.eq(obj.Ep_over_E(E, t, mc2=mc2), want, "ratio of the energies, mass by name")
    edge = k.compton_edge(E)
    c.eq(edge, E / (1 + 2 * E / mc2), "Compton edge")
    c.le(edge, E * v, "not below the Compton edge")
    c.le(E * v, E, "not above the incident energy")
    c.lt(0.0, edge, "Compton edge is positive")
    c.reached(end)


H.add(ratio, bounds="all positive energies and masses, angles in [0, pi]", reach=["inside", "forward", "backward"])


def monotonic(c):
    K, k, E, mc2, which = setup(c)
    a, b = angle(c, "a"), angle(c, "b")
    c.assume(a < b)
    c.lt(K.Ep_over_E(E, b, mc2), K.Ep_over_E(E, a, mc2), "decreases with the angle")
    c.lt(K.Ep_over_E(E, c.pi, mc2), K.Ep_over_E(E, b, mc2), "smallest for backward scattering")
    F = c.real("F", 0, prefer=(0.01, 20.0))
    c.assume(E < F)
    c.lt(K.Ep_over_E(F, a, mc2), K.Ep_over_E(E, a, mc2), "ratio decreases with the energy")
    c.lt(k.compton_edge(E), k.compton_edge(F), "Compton edge increases with the energy")


H.add(monotonic, bounds="all pairs of angles in (0, pi) and energies")


def inverse(c):
    K, k, E, mc2, which = setup(c)
    args = () if which == "default" else (mc2,)
    t = angle(c)
    Ep = E / (1 + E / mc2 * (1 - c.cos(t)))
    back = K.theta(E, Ep, *args)
    c.finite(back, "angle is a number")
    c.eq(back, t, "angle from energy", rtol=1e-5)
    y = c.real("y", 0, 1, prefer=(0.02, 0.98))
    edge = E / (1 + 2 * E / mc2)
    Ey = edge + y * (E - edge)
    th = k.theta(E, Ey, *args)
    c.finite(th, "angle is a number")
    c.le(0.0, th, "angle is not negative")
    c.le(th, c.pi, "angle does not exceed pi")
    c.eq(E * K.Ep_over_E(E, th, *args), Ey, "energy from angle", rtol=1e-6)


H.add(inverse, bounds="all angles in (0, pi), all scattered energies above the Compton edge", rtol=1e-6)


def limits(c):
    """at the kinematic limits the angle is a number for energies that are correct up to rounding"""
    K, k, E, mc2, which = setup(c)
    args = () if which == "default" else (mc2,)
    # for smaller energies the angle is lost in the rounding of equivalent formulas
    c.assume(E >= 1e-6 * mc2)
    where = c.choice("where", ["backward", "forward"])
    ulp = c.real("ulp", -1, 1, strict=False, prefer=(-1.0, 1.0))
    exact = k.compton_edge(E) if where == "backward" else E
    Ep = exact * (1 + ulp * 2.220446049250313e-16)
    th = k.theta(E, Ep, *args)
    c.finite(th, "angle at the limit for %s scattering" % where)
    c.eq(k.theta(E, exact, *args), c.pi if where == "backward" else 0.0, "angle at the exact limit", rtol=1e-3, atol=1e-3)
    c.reached(where)


H.add(limits, bounds="all masses, energies from 10^-6 mc^2, relative deviations up to one unit of rounding", reach=["backward", "forward"], witnesses=12, rtol=1e-3)


def arrays(c):
    K, k, E, mc2, which = setup(c)
    args = () if which == "default" else (mc2,)
    F = c.real("F", 0, prefer=(0.01, 20.0))
    t = angle(c)
    a = c.array([E, F])
    v = K.Ep_over_E(a, t, *args)
    want = [1 / (1 + x / mc2 * (1 - c.cos(t))) for x in (E, F)]
    c.eqs(v, want, "ratios")
    e = k.compton_edge(a)
    c.eqs(e, [x / (1 + 2 * x / mc2) for x in (E, F)], "Compton edges")
    p = c.array([E * want[0], F * want[1]])
    c.eqs(K.theta(a, p, *args), [t, t], "angles", rtol=1e-5)
    c.eqs(a, [E, F], "energies of the caller")


H.add(arrays, bounds="arrays of two energies", rtol=1e-6)


def integers(c):
    """integer energies, angles and masses"""
    kn = c.mod("ries.nonresonant.klein_nishina")
    E, m, t = c.int_("E", 1, 20), c.int_("mc2", 1, 20), c.int_("theta", 0, 3)
    want = [1 / (1 + x / m * (1 - c.cos(t * 1.0))) for x in (E * 1.0, E + 1.0)]
    a = c.int_array([E, E + 1])
    c.eq(kn.KleinNishina.Ep_over_E(E, t, m), want[0], "ratio")
    c.eqs(kn.KleinNishina.Ep_over_E(a, t, m), want, "ratios")
    k = kn.KleinNishina(1, m)
    c.eqs(k.compton_edge(a), [x / (1 + 2 * x / m) for x in (E * 1.0, E + 1.0)], "Compton edges")
    c.eqs(a, [E, E + 1], "energies of the caller")
    # scattered energy equal to the incident energy
    c.eqs(kn.KleinNishina.theta(a, a, m), [0.0, 0.0], "no scattering", atol=1e-6)


H.add(integers, bounds="integer energies and masses to 20, integer angles", rtol=1e-6)


def impossible(c):
    """no angle belongs to scattered energies outside the kinematic limits"""
    K, k, E, mc2, which = setup(c)
    args = () if which == "default" else (mc2,)
    c.assume(E <= 1e6 * mc2)
    where = c.choice("where", ["below", "above"])
    d = c.real("d", 0.001, 0.9, prefer=(0.01, 0.8))
    Ep = E / (1 + 2 * E / mc2) * (1 - d) if where == "below" else E * (1 + d)
    c.check(c.isnan(k.theta(E, Ep, *args)), "not a number for an energy %s the limits" % where)
    c.reached(where)


H.add(impossible, bounds="energies up to 10^6 mc^2, scattered energies outside the limits by 0.1 to 90 percent", reach=["below", "above"])
