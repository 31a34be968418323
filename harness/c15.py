"""C15: pseudo-Voigt quantiles with a failing root finder."""
from .common import HarnessTable, pseudo_voigt_parameters

HARNESSES = H = HarnessTable()


def ppf(c):
    c.inject_newton()
    name, cls = c.params["cls"]
    m = c.mod(name)
    Er = c.real("Er", 0, prefer=(2.0, 20.0))
    w = c.real("width", 0, prefer=(0.05, 2.0))
    A = c.real("amu", 0, prefer=(1.0, 250.0))
    T = c.real("T", 0, prefer=(1e6, 1e10))
    n = c.choice("n", [0, 1, 2, 3])  # 0: scalar
    qs = [c.real("q%d" % i, 0, 1, prefer=(0.1, 0.9)) for i in range(max(n, 1))]
    d = getattr(m, cls)(Er, w, A, T)
    eta, s, g = pseudo_voigt_parameters(c, Er, w, A, T)
    arg = qs[0] if n == 0 else c.array(qs)
    with c.catch() as warned:
        v = d.ppf(arg)
    if n == 0:
        c.check(not isinstance(v, (list, tuple)) and c.np.ndim(v) == 0, "a number for a number")
        vs = [v]
    else:
        c.check(len(v) == n, "an array of the same length")
        c.eqs(arg, qs, "quantiles of the caller")
        vs = [v[i] for i in range(n)]
    if not c.newton_failed():
        c.check(not warned, "no warning if all inversions converged")
    if warned:
        c.check(len(warned) == 1, "one warning")
        for x, q in zip(vs, qs):
            c.eq(x, (1 - eta) * c.norm.ppf(q, Er, s) + eta * c.cauchy.ppf(q, Er, g), "mixture of quantiles", rtol=1e-6, atol=1e-9)
        c.reached("fallback%d" % n)
    else:
        for x, q in zip(vs, qs):
            c.eq((1 - eta) * c.norm.cdf(x, Er, s) + eta * c.cauchy.cdf(x, Er, g), q, "cumulative probability of the quantile", rtol=1e-6)
        c.reached("converged%d" % n)


def median(c):
    """inverted without a warning, with the root finder as it is"""
    c.newton_starts()
    name, cls = c.params["cls"]
    m = c.mod(name)
    Er = c.real("Er", 0, prefer=(2.0, 20.0))
    w = c.real("width", 0, prefer=(0.001, 0.02))
    A = c.real("amu", 0, prefer=(100.0, 250.0))
    T = c.real("T", 0, prefer=(100.0, 1000.0))
    n = c.choice("n", [0, 1, 2])  # 0: scalar
    d = getattr(m, cls)(Er, w, A, T)
    with c.catch() as warned:
        v = d.ppf(0.5 if n == 0 else c.array([0.5] * n))
    c.check(not warned, "no warning")
    for x in [v] if n == 0 else [v[i] for i in range(n)]:
        c.eq(x, Er, "median")
    c.reached("median%d" % n)


for name, cls in (("ries.resonance.pseudo_voigt", "PseudoVoigtDistribution"), ("ries.resonance.voigt", "SemiPseudoVoigtDistribution")):
    H.add(ppf, name="ppf_" + cls, params={"cls": (name, cls)}, witnesses=20, feas_ms=300,
          reach=["%s%d" % (k, n) for k in ("fallback", "converged") for n in (0, 1, 2, 3)],
          bounds="one scalar or arrays of 1 to 3 quantiles in (0,1), every combination of converged and failed elements")
    H.add(median, name="median_" + cls, params={"cls": (name, cls)}, reach=["median%d" % n for n in (0, 1, 2)],
          bounds="one scalar or arrays of 1 or 2 medians, all parameters; the root finder ends at a starting point which is a root, and may fail elsewhere")
