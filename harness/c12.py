"""C12: Doppler width and its inverse."""
from .common import HarnessTable, doppler_width

HARNESSES = H = HarnessTable()


def inputs(c, p=""):
    return (
        c.real(p + "A", 0, prefer=(1.0, 250.0)),
        c.real(p + "T", 0, prefer=(1.0, 1000.0)),
        c.real(p + "E", 0, prefer=(0.1, 20.0)),
    )


def width(c):
    mb = c.mod("ries.resonance.maxwell_boltzmann")
    A, T, E = inputs(c)
    k = c.const("Boltzmann constant in eV/K") * 1e-6
    u = c.const("atomic mass constant energy equivalent in MeV")
    w = mb.MaxwellBoltzmann(A, T).get_doppler_width(E)
    c.eq(w, doppler_width(c, E, A, T), "Doppler width")
    c.eq(w * w * A * u, E * E * 2 * k * T, "square of the Doppler width")
    c.lt(0.0, w, "positive")
    s = c.real("s", 0, prefer=(0.1, 10.0))
    c.eq(mb.MaxwellBoltzmann(A, T).get_doppler_width(s * E), s * w, "proportional to the energy")
    c.eq(mb.MaxwellBoltzmann(A, s * s * T).get_doppler_width(E), s * w, "square root of the temperature")
    c.eq(mb.MaxwellBoltzmann(s * s * A, T).get_doppler_width(E) * s, w, "inverse square root of the mass")


H.add(width, bounds="all positive masses, temperatures and energies")


def zero(c):
    mb = c.mod("ries.resonance.maxwell_boltzmann")
    A, T, E = inputs(c)
    c.eq(mb.MaxwellBoltzmann(A, 0.0).get_doppler_width(E), 0.0, "zero temperature", atol=1e-300)
    c.eq(mb.MaxwellBoltzmann(A, T).get_doppler_width(0.0), 0.0, "zero energy", atol=1e-300)


H.add(zero, bounds="zero temperature, zero energy")


def inverse(c):
    mb = c.mod("ries.resonance.maxwell_boltzmann")
    A, T, E = inputs(c)
    other_T = c.real("T2", 0, prefer=(1.0, 1000.0))
    w = mb.MaxwellBoltzmann(A, T).get_doppler_width(E)
    src = mb.MaxwellBoltzmann if c.choice("via", [0, 1]) else mb.MaxwellBoltzmann(A, other_T)
    c.eq(src.get_effective_temperature(w, A, E), T, "temperature from width")
    d = c.real("d", 0, prefer=(1e-6, 1e-4))
    t = src.get_effective_temperature(d, A, E)
    c.eq(mb.MaxwellBoltzmann(A, t).get_doppler_width(E), d, "width from temperature")


H.add(inverse, bounds="all positive masses, temperatures, energies and widths", rtol=1e-6)


def arrays(c):
    mb = c.mod("ries.resonance.maxwell_boltzmann")
    A, T, E = inputs(c)
    F = c.real("F", 0, prefer=(0.1, 20.0))
    a = c.array([E, F])
    m = mb.MaxwellBoltzmann(A, T)
    n = mb.MaxwellBoltzmann(T, A)
    v = m.get_doppler_width(a)
    c.eqs(v, [doppler_width(c, x, A, T) for x in (E, F)], "widths")
    c.eqs(a, [E, F], "energies of the caller")
    c.eq(n.get_doppler_width(E), doppler_width(c, E, T, A), "second object")
    c.eq(m.get_doppler_width(E), doppler_width(c, E, A, T), "first object again")


H.add(arrays, bounds="arrays of two energies, two objects")


def integers(c):
    """integer masses, temperatures and energies"""
    mb = c.mod("ries.resonance.maxwell_boltzmann")
    A, T, E = c.int_("A", 1, 250), c.int_("T", 1, 1000), c.int_("E", 1, 20)
    m = mb.MaxwellBoltzmann(A, T)
    want = [doppler_width(c, x * 1.0, A * 1.0, T * 1.0) for x in (E, E + 1)]
    c.eq(m.get_doppler_width(E), want[0], "width")
    a = c.int_array([E, E + 1])
    c.eqs(m.get_doppler_width(a), want, "widths")
    c.eqs(a, [E, E + 1], "energies of the caller")
    c.eqs(mb.MaxwellBoltzmann.get_effective_temperature(c.array(want), A, a), [T, T], "temperatures")


H.add(integers, bounds="integer masses to 250, temperatures to 1000, energies to 20", rtol=1e-6)
