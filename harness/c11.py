"""C11: recoil."""
from .common import HarnessTable, resonance

HARNESSES = H = HarnessTable()


def kinematics(c):
    rc = c.mod("ries.resonance.recoil")
    A = c.real("A", 0, prefer=(0.5, 250.0))
    D = c.real("D", 0, prefer=(0.01, 20.0))
    u = c.const("atomic mass constant energy equivalent in MeV")
    M = A * u
    E = rc.FreeNucleusRecoil(A)(D)
    # (E + M, E) is the four-momentum of a nucleus with mass M + D
    c.eq((E + M) ** 2, (M + D) ** 2 + E ** 2, "energy-momentum conservation")
    c.eq(E, D + D ** 2 / (2 * M), "photon energy")
    c.lt(D, E, "above the excitation energy")
    c.eq(rc.NoRecoil()(D), D, "no recoil")


H.add(kinematics, bounds="all positive masses and excitation energies")


def emission(c):
    """negative energy differences: the photon carries the energy away"""
    rc = c.mod("ries.resonance.recoil")
    A = c.real("A", 0, prefer=(0.5, 250.0))
    D = c.real("D", strict=False, hi=0, prefer=(-20.0, -0.01))
    M = A * c.const("atomic mass constant energy equivalent in MeV")
    c.assume(M + D > 0)
    E = rc.FreeNucleusRecoil(A)(D)
    c.eq((E + M) ** 2, (M + D) ** 2 + E ** 2, "energy-momentum conservation")
    c.eq(E, D + D ** 2 / (2 * M), "photon energy")
    c.le(E, 0.0, "energy is carried away")
    c.eq(rc.NoRecoil()(D), D, "no recoil")


H.add(emission, bounds="all masses, all energy differences that are not positive and leave a positive mass")


def trends(c):
    rc = c.mod("ries.resonance.recoil")
    A, D = c.real("A", 0, prefer=(0.5, 250.0)), c.real("D", 0, prefer=(0.01, 20.0))
    B, F = c.real("B", 0, prefer=(0.5, 250.0)), c.real("F", 0, prefer=(0.01, 20.0))
    c.assume(c.all([A < B, D < F]))
    light, heavy = rc.FreeNucleusRecoil(A), rc.FreeNucleusRecoil(B)
    c.lt(light(D), light(F), "increases with the excitation energy")
    c.lt(heavy(D), light(D), "decreases with the mass")
    u = c.const("atomic mass constant energy equivalent in MeV")
    c.le(heavy(D) - D, D * D / (2 * B * u), "vanishes like 1/mass", atol=1e-8)
    c.eq(light(D), D + D ** 2 / (2 * A * u), "first object after the second was used")


H.add(trends, bounds="two masses and two excitation energies")


def in_resonance(c):
    """resonances use it between the states"""
    r = resonance(c, "Resonance", n_widths=1, excited_initial=c.choice("excited", [False, True]), recoil=c.choice("recoil", [None, 1]))
    c.eq(r.res.resonance_energy, r.Er, "resonance energy")
    x = c.real("x", -0.5, 0.5, prefer=(-0.4, 0.4))
    c.eq(r.res(r.Er + x), r.integrated, "value within the uniform distribution")


H.add(in_resonance, bounds="ground or excited initial state")


def arrays(c):
    """element by element, without modifying the input"""
    rc = c.mod("ries.resonance.recoil")
    A = c.real("A", 0, prefer=(0.5, 250.0))
    D = [c.real("D%d" % i, 0, prefer=(0.01, 20.0)) for i in range(3)]
    u = c.const("atomic mass constant energy equivalent in MeV")
    a = c.array(D)
    c.eqs(rc.FreeNucleusRecoil(A)(a), [d + d ** 2 / (2 * A * u) for d in D], "photon energies")
    c.eqs(rc.NoRecoil()(a), D, "no recoil")
    c.eqs(a, D, "input")


H.add(arrays, bounds="three excitation energies")


def integers(c):
    rc = c.mod("ries.resonance.recoil")
    A, D = c.int_("A", 1, 250), c.int_("D", 1, 20)
    u = c.const("atomic mass constant energy equivalent in MeV")
    want = [d + d * d / (2 * A * u) for d in (D * 1.0, D + 1.0)]
    a = c.int_array([D, D + 1])
    c.eq(rc.FreeNucleusRecoil(A)(D), want[0], "photon energy")
    c.eqs(rc.FreeNucleusRecoil(A)(a), want, "photon energies")
    c.eqs(a, [D, D + 1], "input")


H.add(integers, bounds="integer masses to 250 and excitation energies to 20")
