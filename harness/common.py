"""Shared pieces of the harnesses: arbitrary cross sections, states and the documented line shapes."""


class HarnessTable(dict):
    def add(self, fn, name=None, **opts):
        self[name or fn.__name__] = dict(opts, fn=fn)
        return fn


def leaf(c, name, E):
    """an arbitrary linear cross section a + b*E and its value at E"""
    cs = c.mod("ries.cross_section")
    a = c.real(name + ".a", prefer=(-5, 5))
    b = c.real(name + ".b", prefer=(-5, 5))

    class Leaf(cs.CrossSection):
        def __call__(self, energy):
            return a + b * energy

        def equidistant_probability_grid(self, limits, n_points):
            return self.equidistant_energy_grid(limits, n_points)

    return Leaf(), a + b * E


KINDS = ["Resonance", "BreitWigner", "Gauss", "PseudoVoigt", "Voigt"]
MODULE = {
    "Resonance": "ries.resonance.resonance",
    "BreitWigner": "ries.resonance.breit_wigner",
    "Gauss": "ries.resonance.gauss",
    "PseudoVoigt": "ries.resonance.pseudo_voigt",
    "Voigt": "ries.resonance.voigt",
}


class Spec:
    """documented probability distribution of a line shape"""

    def __init__(self, pdf, cdf, ppf):
        self.pdf, self.cdf, self.ppf = pdf, cdf, ppf


def doppler_width(c, E, amu, T):
    k = c.const("Boltzmann constant in eV/K") * 1e-6
    u = c.const("atomic mass constant energy equivalent in MeV")
    return E * c.sqrt(2 * k * T / (amu * u))


def pseudo_voigt_parameters(c, Er, width, amu, T):
    """(eta, sigma of the normal, half width of the Cauchy distribution)"""
    delta = doppler_width(c, Er, amu, T)
    fL = width
    fG = 2 * c.sqrt(c.log(2.0)) * delta
    f5 = (
        fG ** 5
        + 2.69269 * fG ** 4 * fL
        + 2.42843 * fG ** 3 * fL ** 2
        + 4.47163 * fG ** 2 * fL ** 3
        + 0.07842 * fG * fL ** 4
        + fL ** 5
    )
    f = c.root5(f5)
    x = fL / f
    eta = 1.36603 * x - 0.47719 * x ** 2 + 0.11116 * x ** 3
    return eta, f / (2 * c.sqrt(2 * c.log(2.0))), f / 2


def family(c, dist, loc, scale):
    return Spec(
        lambda x: dist.pdf(x, loc, scale),
        lambda x: dist.cdf(x, loc, scale),
        lambda q: dist.ppf(q, loc, scale),
    )


def spec_shape(c, kind, Er, width, amu, T):
    if kind == "Resonance":
        return family(c, c.uniform, Er - 0.5, 1.0)
    if kind == "BreitWigner":
        return family(c, c.cauchy, Er, width / 2)
    delta = doppler_width(c, Er, amu, T)
    if kind == "Gauss":
        return family(c, c.norm, Er, delta / c.sqrt(2.0))
    eta, s, g = pseudo_voigt_parameters(c, Er, width, amu, T)
    n, l = family(c, c.norm, Er, s), family(c, c.cauchy, Er, g)
    mix = Spec(*[(lambda x, m=m: (1 - eta) * getattr(n, m)(x) + eta * getattr(l, m)(x)) for m in ("pdf", "cdf", "ppf")])
    if kind == "Voigt":
        mix.pdf = lambda x: c.voigt_profile(x - Er, delta / c.sqrt(2.0), width / 2)
    return mix


class Res:
    """a resonance of the package together with what it should be"""


def resonance(c, kind, pfx="", n_widths=2, excited_initial=False, final=None, recoil=None, spins=False):
    """final: index of the final state or None; states are labelled s0 (initial), s1, ..."""
    st = c.mod("ries.constituents.state")
    m = c.mod(MODULE[kind])
    r = Res()
    labels = ["0^+_1", "2^+_1", "1^-_3", "3^-_1"][:n_widths]
    r.two_J0 = c.int_(pfx + "two_J0", 0, 12) if spins else 0
    r.two_J1 = c.int_(pfx + "two_J1", 0, 12) if spins else 2
    r.gammas = [c.real(pfx + "Gamma%d" % i, 0, prefer=(0.05, 2.0)) for i in range(n_widths)]
    r.E1 = c.real(pfx + "E1", 0, prefer=(2.0, 20.0))
    if excited_initial:
        r.E0 = c.real(pfx + "E0", 0, prefer=(0.1, 1.5))
        c.assume(r.E0 < r.E1)
        r.initial = st.State(labels[0], r.two_J0, 1, r.E0, {"x": c.real(pfx + "w0", 0, prefer=(0.05, 1.0))})
    else:
        r.E0 = 0.0
        r.initial = st.GroundState(labels[0], r.two_J0, 1)
    r.intermediate = st.State("1^-_1", r.two_J1, -1, r.E1, {l: g for l, g in zip(labels, r.gammas)})
    r.width = r.gammas[0]
    for g in r.gammas[1:]:
        r.width = r.width + g
    r.finals = [r.initial] + [st.GroundState(l, 2, 1) for l in labels[1:]]
    r.final = None if final is None else r.finals[final]
    r.branching = 1.0 if final is None else r.gammas[final] / r.width
    r.diff = r.E1 - r.E0
    r.Er = r.diff
    kw = {}
    if recoil is not None:
        r.recoil_amu = c.real(pfx + "recoil_amu", 0, prefer=(2.0, 250.0))
        kw["recoil_correction"] = c.mod("ries.resonance.recoil").FreeNucleusRecoil(r.recoil_amu)
        u = c.const("atomic mass constant energy equivalent in MeV")
        r.Er = r.diff * (1 + r.diff / (2 * r.recoil_amu * u))
    if kind in ("Resonance", "BreitWigner"):
        r.amu = r.T = None
        r.make = lambda fin: getattr(m, kind)(r.initial, r.intermediate, fin, **kw)
    else:
        r.amu = c.real(pfx + "amu", 0, prefer=(1.0, 250.0))
        r.T = c.real(pfx + "T", 0, prefer=(1e6, 1e10))
        r.make = lambda fin: getattr(m, kind)(r.initial, r.intermediate, r.amu, r.T, fin)
    r.res = r.make(r.final)
    r.spec = spec_shape(c, kind, r.Er, r.width, r.amu, r.T)
    hbarc = c.const("reduced Planck constant times c in MeV fm")
    r.integrated = (
        (c.pi * hbarc / r.Er) ** 2
        * ((r.two_J1 + 1.0) / (r.two_J0 + 1.0))
        * r.gammas[0]
        * r.branching
    )
    return r
