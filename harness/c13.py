"""C13: parameters of the line shapes."""
from .common import HarnessTable, resonance, KINDS

HARNESSES = H = HarnessTable()


def shape(c):
    """density, cumulative probability and quantiles of the distribution a resonance uses"""
    kind = c.params["kind"]
    r = resonance(c, kind, n_widths=c.choice("widths", [1, 2]), excited_initial=c.choice("excited", [False, True]), final=c.choice("final", [None, 0]))
    x = c.real("x", prefer=(-3.0, 3.0))
    E = r.Er + x
    if kind == "Resonance":
        c.assume(c.all([x != -0.5, x != 0.5]))
    c.eq(r.res(E), r.integrated * r.spec.pdf(E), "cross section")
    if kind == "Voigt":
        c.eq(r.res(r.Er - x), r.integrated * r.spec.pdf(E), "symmetry")
        c.reached("voigt")
        return
    dist, par = r.res.probability_distribution, r.res.probability_distribution_parameters
    c.eq(dist.pdf(E, *par), r.spec.pdf(E), "density")
    c.eq(dist.cdf(E, *par), r.spec.cdf(E), "cumulative probability")
    if kind != "PseudoVoigt":
        q = c.real("q", 0, 1, prefer=(0.02, 0.98))
        c.eq(dist.ppf(q, *par), r.spec.ppf(q), "quantile")
        c.eq(dist.cdf(dist.ppf(q, *par), *par), q, "cumulative probability of a quantile")
    c.eq(r.res(r.Er - x), r.res(r.Er + x), "symmetry")
    c.eq(dist.cdf(r.Er, *par), 0.5, "centre")


for k in KINDS:
    H.add(shape, name="shape_" + k, params={"kind": k}, witnesses=8, rtol=1e-6,
          bounds="all energies, excitation energies, widths, masses and temperatures; 1 or 2 partial widths")


def closed_form(c):
    """independent of the distribution functions of the library: height and width"""
    kind = c.params["kind"]
    r = resonance(c, kind, n_widths=2)
    if kind == "BreitWigner":
        top = r.integrated * 2 / (c.pi * r.width)
        c.eq(r.res(r.Er), top, "maximum")
        c.eq(r.res(r.Er + r.width / 2), top / 2, "half maximum at +Gamma/2")
        c.eq(r.res(r.Er - r.width / 2), top / 2, "half maximum at -Gamma/2")
        x = c.real("x", prefer=(-3.0, 3.0))
        c.eq(r.res(r.Er + x), r.integrated * r.width / (2 * c.pi) / (x * x + r.width * r.width / 4), "Breit-Wigner formula")
    else:
        from .common import doppler_width

        d = doppler_width(c, r.Er, r.amu, r.T)
        x = c.real("x", prefer=(-2.0, 2.0))
        c.eq(r.res(r.Er), r.integrated / (c.sqrt(c.pi) * d), "maximum")
        c.eq(r.res(r.Er + x) * c.sqrt(c.pi) * d, r.integrated * c.exp(-(x * x) / (d * d)), "Gaussian formula", atol=1e-12)


for k in ("BreitWigner", "Gauss"):
    H.add(closed_form, name="closed_form_" + k, params={"kind": k}, rtol=1e-6, bounds="all energies and parameters")
