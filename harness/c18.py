"""C18: differential Klein-Nishina cross sections."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def setup(c):
    kn = c.mod("ries.nonresonant.klein_nishina")
    E = c.real("E", 0, prefer=(0.01, 20.0))
    Z = c.real("Z", 0, prefer=(1.0, 90.0))
    which = c.choice("mass", ["default", "own"])
    if which == "default":
        mc2 = c.const("electron mass energy equivalent in MeV")
        k = kn.KleinNishina(Z)
    else:
        mc2 = c.real("mc2", 0, prefer=(0.05, 2000.0))
        k = kn.KleinNishina(Z, mc2)
    alpha = c.const("fine-structure constant")
    hbarc = c.const("Planck constant over 2 pi times c in MeV fm")
    r2 = Z * (alpha * hbarc / mc2) ** 2
    return k, E, mc2, r2


def angle(c):
    t = c.real("theta", 0, prefer=(0.02, 3.1))
    c.assume(t < c.pi)
    return t



def solid_angle(c):
    k, E, m, r2 = setup(c)
    t = angle(c)
    phi = c.real("phi", prefer=(0.0, 6.28))
    ct, st, cp = c.cos(t), c.sin(t), c.cos(phi)
    P = 1 / (1 + E / m * (1 - ct))
    pol = r2 / 2 * P ** 2 * (P + 1 / P - 2 * st ** 2 * cp ** 2)
    unpol = r2 / 2 * P ** 2 * (P + 1 / P - st ** 2)
    c.eq(k.cs_diff_dOmega(E, t, phi), pol, "polarized")
    c.eq(k.cs_diff_dOmega_unpolarized(E, t), unpol, "unpolarized")
    c.eq(
        k.cs_diff_dOmega(E, t, phi) + k.cs_diff_dOmega(E, t, phi + c.pi / 2),
        2 * k.cs_diff_dOmega_unpolarized(E, t),
        "average over two orthogonal azimuths",
    )
    c.eq(k.cs_diff_dtheta(E, t), 2 * c.pi * st * unpol, "per polar angle")


H.add(solid_angle, bounds="all energies, masses, proton numbers, polar angles in (0, pi) and azimuths")


def energy(c):
    k, E, m, r2 = setup(c)
    y = c.real("y", 0, 1, prefer=(0.02, 0.98))
    phi = c.real("phi", prefer=(0.0, 6.28))
    edge = E / (1 + 2 * E / m)
    Ep = edge + y * (E - edge)
    ct = 1 - m / Ep + m / E
    s2 = 1 - ct ** 2
    P = Ep / E
    dcos = m / Ep ** 2
    pol = r2 / 2 * P ** 2 * (P + 1 / P - 2 * s2 * c.cos(phi) ** 2) * dcos
    unpol = r2 / 2 * P ** 2 * (P + 1 / P - s2) * dcos
    c.eq(k.cs_diff_dEp_dphi(E, Ep, phi), pol, "per scattered energy and azimuth", rtol=1e-6)
    c.eq(k.cs_diff_dEp(E, Ep), 2 * c.pi * unpol, "per scattered energy", rtol=1e-6)
    c.eq(
        c.pi * (k.cs_diff_dEp_dphi(E, Ep, phi) + k.cs_diff_dEp_dphi(E, Ep, phi + c.pi / 2)),
        k.cs_diff_dEp(E, Ep),
        "integral over the azimuth", rtol=1e-6,
    )


H.add(energy, bounds="all energies, masses, proton numbers, scattered energies above the Compton edge and azimuths", rtol=1e-6)


def jacobian(c):
    """per scattered energy at the energy of an angle against per solid angle"""
    k, E, m, r2 = setup(c)
    t = angle(c)
    phi = c.real("phi", prefer=(0.0, 6.28))
    Ep = E / (1 + E / m * (1 - c.cos(t)))
    # dOmega = sin(theta) dtheta dphi, dEp = Ep^2/m sin(theta) dtheta
    jac = Ep ** 2 / m * c.sin(t)
    c.eq(k.cs_diff_dEp(E, Ep) * jac, k.cs_diff_dtheta(E, t), "energy to angle", rtol=1e-6)
    c.eq(k.cs_diff_dEp_dphi(E, Ep, phi) * jac, k.cs_diff_dOmega(E, t, phi) * c.sin(t), "energy to angle at fixed azimuth", rtol=1e-6)


H.add(jacobian, bounds="all energies, masses, proton numbers, polar angles in (0, pi) and azimuths", rtol=1e-5)


def sign(c):
    k, E, m, r2 = setup(c)
    end = c.choice("end", ["inside", "forward", "backward"])
    t = {"inside": lambda: angle(c), "forward": lambda: 0.0, "backward": lambda: c.pi}[end]()
    phi = c.real("phi", prefer=(0.0, 6.28))
    c.le(0.0, k.cs_diff_dOmega(E, t, phi), "polarized is not negative", atol=1e-12)
    c.le(0.0, k.cs_diff_dOmega_unpolarized(E, t), "unpolarized is not negative")
    c.le(0.0, k.cs_diff_dtheta(E, t), "per polar angle is not negative", atol=1e-12)


H.add(sign, bounds="all energies, masses, proton numbers, angles")


def arrays(c):
    k, E, m, r2 = setup(c)
    t = angle(c)
    F = c.real("F", 0, prefer=(0.01, 20.0))
    a = c.array([E, F])

    def unpol(x):
        P = 1 / (1 + x / m * (1 - c.cos(t)))
        return r2 / 2 * P ** 2 * (P + 1 / P - c.sin(t) ** 2)

    c.eqs(k.cs_diff_dOmega_unpolarized(a, t), [unpol(E), unpol(F)], "energies")
    tt = c.array([t, 0.0, c.pi])
    v = k.cs_diff_dOmega_unpolarized(E, tt)
    c.eq(v[0], unpol(E), "angles")
    c.eq(v[1], r2, "forward")
    P = 1 / (1 + 2 * E / m)
    c.eq(v[2], r2 / 2 * P ** 2 * (P + 1 / P), "backward")
    w = k.cs_diff_dtheta(E, tt)
    c.eq(w[0], 2 * c.pi * c.sin(t) * unpol(E), "per polar angle")
    c.eqs(a, [E, F], "energies of the caller")


H.add(arrays, bounds="arrays of two energies or three angles")


def integers(c):
    """integer energies, angles and masses"""
    kn = c.mod("ries.nonresonant.klein_nishina")
    E, m, t, Z = c.int_("E", 1, 20), c.int_("mc2", 1, 20), c.int_("theta", 0, 3), c.int_("Z", 1, 92)
    r2 = Z * (c.const("fine-structure constant") * c.const("Planck constant over 2 pi times c in MeV fm") / m) ** 2
    k = kn.KleinNishina(Z, m)

    def unpol(x):
        P = 1 / (1 + x / m * (1 - c.cos(t * 1.0)))
        return r2 / 2 * P ** 2 * (P + 1 / P - c.sin(t * 1.0) ** 2)

    want = [unpol(E * 1.0), unpol(E + 1.0)]
    a = c.int_array([E, E + 1])
    c.eqs(k.cs_diff_dOmega_unpolarized(a, t), want, "per solid angle")
    c.eqs(k.cs_diff_dtheta(a, t), [2 * c.pi * c.sin(t * 1.0) * w for w in want], "per polar angle")
    c.eqs(k.cs_diff_dEp(a, a), [2 * c.pi * m / (x * x) * r2 for x in (E * 1.0, E + 1.0)], "per energy, forward")
    c.eqs(a, [E, E + 1], "energies of the caller")


H.add(integers, bounds="integer energies and masses to 20, integer angles", rtol=1e-6)
