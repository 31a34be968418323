"""C14: pseudo-Voigt mixture."""
from .common import HarnessTable, doppler_width, pseudo_voigt_parameters, family

HARNESSES = H = HarnessTable()


def inputs(c):
    return (
        c.real("Er", 0, prefer=(2.0, 20.0)),
        c.real("width", 0, prefer=(0.05, 2.0)),
        c.real("amu", 0, prefer=(1.0, 250.0)),
        c.real("T", 0, prefer=(1e6, 1e10)),
    )


def mixture(c):
    pv = c.mod("ries.resonance.pseudo_voigt")
    Er, w, A, T = inputs(c)
    d = pv.PseudoVoigtDistribution(Er, w, A, T)
    eta, s, g = pseudo_voigt_parameters(c, Er, w, A, T)
    n, l = family(c, c.norm, Er, s), family(c, c.cauchy, Er, g)
    x = c.real("x", prefer=(-4.0, 4.0))
    E = Er + x
    c.eq(d.eta, eta, "weight")
    c.eq(d.pdf(E), (1 - eta) * n.pdf(E) + eta * l.pdf(E), "density")
    c.eq(d.cdf(E), (1 - eta) * n.cdf(E) + eta * l.cdf(E), "cumulative probability")
    c.eq(d.pdf(Er - x), d.pdf(Er + x), "symmetry of the density")
    c.eq(d.cdf(Er), 0.5, "cumulative probability at the centre")


H.add(mixture, bounds="all positive resonance energies, widths, masses and temperatures, all energies", rtol=1e-7)


def weight(c):
    """0 < eta < 1 for the documented weight: with f^5 >= fL^5 the ratio fL/f is in (0,1]"""
    pv = c.mod("ries.resonance.pseudo_voigt")
    Er, w, A, T = inputs(c)
    d = pv.PseudoVoigtDistribution(Er, w, A, T)
    eta = d.eta
    x = c.real("ratio", 0, 1, strict=False, prefer=(0.01, 1.0))
    # the polynomial maps [0,1] to [0,1]
    p = 1.36603 * x - 0.47719 * x ** 2 + 0.11116 * x ** 3
    c.le(0.0, p, "weight polynomial is not negative")
    c.le(p, 1.0, "weight polynomial does not exceed one")
    _, s, g = pseudo_voigt_parameters(c, Er, w, A, T)
    f = 2 * g
    fG = 2 * c.sqrt(c.log(2.0)) * doppler_width(c, Er, A, T)
    rest = fG ** 5 + 2.69269 * fG ** 4 * w + 2.42843 * fG ** 3 * w ** 2 + 4.47163 * fG ** 2 * w ** 3 + 0.07842 * fG * w ** 4
    c.eq(f ** 5, rest + w ** 5, "full width", rtol=1e-9)
    c.lt(0.0, rest, "contribution of the Doppler broadening")
    y = w / f
    c.eq(eta, 1.36603 * y - 0.47719 * y ** 2 + 0.11116 * y ** 3, "weight")


H.add(weight, bounds="all positive parameters")


def cold(c):
    """zero temperature: Breit-Wigner"""
    pv = c.mod("ries.resonance.pseudo_voigt")
    Er, w, A, T = inputs(c)
    d = pv.PseudoVoigtDistribution(Er, w, A, 0.0)
    l = family(c, c.cauchy, Er, w / 2)
    x = c.real("x", prefer=(-4.0, 4.0))
    c.eq(d.eta, 1.0, "weight")
    c.eq(d.pdf(Er + x), l.pdf(Er + x), "density")
    c.eq(d.cdf(Er + x), l.cdf(Er + x), "cumulative probability")


H.add(cold, bounds="zero temperature, all other parameters", rtol=1e-7)


def unbroadened(c):
    """zero natural width: Gaussian"""
    pv = c.mod("ries.resonance.pseudo_voigt")
    Er, w, A, T = inputs(c)
    d = pv.PseudoVoigtDistribution(Er, 0.0, A, T)
    n = family(c, c.norm, Er, doppler_width(c, Er, A, T) / c.sqrt(2.0))
    x = c.real("x", prefer=(-4.0, 4.0))
    c.eq(d.eta, 0.0, "weight", atol=1e-300)
    c.eq(d.pdf(Er + x), n.pdf(Er + x), "density", atol=1e-300)
    c.eq(d.cdf(Er + x), n.cdf(Er + x), "cumulative probability", atol=1e-300)


H.add(unbroadened, bounds="zero natural width, all other parameters", rtol=1e-6)


def voigt_cdf(c):
    """the distribution of the Voigt resonance: exact density, pseudo-Voigt cumulative probability"""
    m = c.mod("ries.resonance.voigt")
    Er, w, A, T = inputs(c)
    d = m.SemiPseudoVoigtDistribution(Er, w, A, T)
    eta, s, g = pseudo_voigt_parameters(c, Er, w, A, T)
    n, l = family(c, c.norm, Er, s), family(c, c.cauchy, Er, g)
    x = c.real("x", prefer=(-4.0, 4.0))
    E = Er + x
    c.eq(d.pdf(E), c.voigt_profile(x, doppler_width(c, Er, A, T) / c.sqrt(2.0), w / 2), "density")
    c.eq(d.cdf(E), (1 - eta) * n.cdf(E) + eta * l.cdf(E), "cumulative probability")


H.add(voigt_cdf, bounds="all positive parameters, all energies", rtol=1e-7)


def interleaved(c):
    """two distributions do not share parameters"""
    pv = c.mod("ries.resonance.pseudo_voigt")
    Er, w, A, T = inputs(c)
    Er2, w2 = c.real("Er2", 0, prefer=(2.0, 20.0)), c.real("w2", 0, prefer=(0.05, 2.0))
    a = pv.PseudoVoigtDistribution(Er, w, A, T)
    first = a.eta
    b = pv.PseudoVoigtDistribution(Er2, w2, A, T)
    eta, s, g = pseudo_voigt_parameters(c, Er, w, A, T)
    eta2, s2, g2 = pseudo_voigt_parameters(c, Er2, w2, A, T)
    x = c.real("x", prefer=(-4.0, 4.0))
    for d, e, t, (et, si, ga) in ((b, w2, Er2, (eta2, s2, g2)), (a, w, Er, (eta, s, g))):
        c.eq(d.cdf(t + x), (1 - et) * c.norm.cdf(t + x, t, si) + et * c.cauchy.cdf(t + x, t, ga), "cumulative probability")


H.add(interleaved, bounds="two distributions", rtol=1e-7)
