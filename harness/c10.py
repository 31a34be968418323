"""C10: coverage intervals."""
from .common import HarnessTable, resonance, KINDS

HARNESSES = H = HarnessTable()


def interval(c):
    kind = c.params["kind"]
    which = c.choice("coverage", ["inner", "zero", "one", "int one", "int zero"])
    r = resonance(c, kind, n_widths=1)
    if which == "inner":
        cov = c.real("cov", 0, 1, prefer=(0.02, 0.98))
    else:
        cov = {"zero": 0.0, "one": 1.0, "int one": 1, "int zero": 0}[which]
    lo, hi = r.spec.ppf((1 - cov) / 2), r.spec.ppf((1 + cov) / 2)
    with c.catch() as w:
        lim = r.res.coverage_interval(cov)
    c.check(len(lim) == 2, "two limits")
    neg = bool(lo < 0)
    inf = c.isinf(hi)
    c.check(len(w) == int(neg) + int(inf), "number of warnings")
    if neg:
        c.reached("negative")
        c.eq(lim[0], 0.0, "lower limit", atol=1e-300)
        reach = 100 * (1 - r.spec.cdf(0.0))
        said = [x for m in w for x in c.numbers(m.message)]
        c.check(len(said) >= 1, "the warning states the reachable coverage")
        c.eq(said[0], reach, "reachable coverage in the warning", atol=1e-5)
    else:
        c.eq(lim[0], lo, "lower limit")
    c.eq(lim[1], hi, "upper limit")
    c.reached(which)


for k in KINDS[:3]:
    H.add(interval, name="interval_" + k, params={"kind": k}, witnesses=15, rtol=1e-6,
          reach=["inner", "zero", "one"] + (["negative"] if k != "Resonance" else []),
          bounds="coverage in [0,1] as float or integer, any resonance parameters")


def pseudo_voigt(c):
    """with a root finder that converges the limits have the right cumulative probabilities"""
    r = resonance(c, c.params["kind"], n_widths=1)
    cov = c.real("cov", 0, 1, prefer=(0.02, 0.9))
    c.newton_converges()
    with c.catch() as w:
        lim = r.res.coverage_interval(cov)
    if not c.symbolic:
        c.assume(not any("pseudo-Voigt" in str(x.message) for x in w))
    c.check(len(lim) == 2, "two limits")
    c.eq(r.spec.cdf(lim[1]), (1 + cov) / 2, "cumulative probability of the upper limit", rtol=1e-5)
    if w:
        c.check(len(w) == 1, "one warning")
        c.eq(lim[0], 0.0, "lower limit", atol=1e-300)
        said = [x for m in w for x in c.numbers(m.message)]
        c.check(len(said) >= 1, "the warning states the reachable coverage")
        c.eq(said[0], 100 * (1 - r.spec.cdf(0.0)), "reachable coverage in the warning", atol=1e-5)
        c.reached("negative")
    else:
        c.check(lim[0] >= 0, "lower limit is not negative")
        c.eq(r.spec.cdf(lim[0]), (1 - cov) / 2, "cumulative probability of the lower limit", rtol=1e-5)
        c.reached("positive")


for k in KINDS[3:]:
    H.add(pseudo_voigt, name="interval_" + k, params={"kind": k}, witnesses=8, reach=["positive", "negative"], feas_ms=300, rtol=1e-5,
          bounds="coverage in (0,1), root finder converges")


def repeated(c):
    """an interval depends neither on earlier ones nor on what the caller did to them"""
    r = resonance(c, c.params["kind"], n_widths=1)
    u, v = c.real("u", 0, 1, prefer=(0.02, 0.9)), c.real("v", 0, 1, prefer=(0.02, 0.9))
    with c.catch() as w:
        first = r.res.coverage_interval(u)
        try:
            first[0] = first[1] = 7.0
        except TypeError:
            pass
        second = r.res.coverage_interval(v)
        third = r.res.coverage_interval(u)
    for lim, cov in ((second, v), (third, u)):
        lo, hi = r.spec.ppf((1 - cov) / 2), r.spec.ppf((1 + cov) / 2)
        if lo < 0:
            lo = 0.0
        c.eq(lim[0], lo, "lower limit", atol=1e-300)
        c.eq(lim[1], hi, "upper limit")


for k in KINDS[:3]:
    H.add(repeated, name="repeated_" + k, params={"kind": k}, witnesses=5, rtol=1e-6, bounds="three intervals for two coverages")


def warned_again(c):
    """every interval with a negative lower limit is announced"""
    kind = c.params["kind"]
    a = resonance(c, kind, pfx="a_", n_widths=1)
    b = resonance(c, kind, pfx="b_", n_widths=1)
    cov = c.real("cov", 0, 1, prefer=(0.8, 0.98))
    c.assume(c.all([a.spec.ppf((1 - cov) / 2) < 0, b.spec.ppf((1 - cov) / 2) < 0]))
    for r in (a, b, a):
        with c.catch() as w:
            lim = r.res.coverage_interval(cov)
        c.check(len(w) == 1, "one warning")
        said = [x for m in w for x in c.numbers(m.message)]
        c.check(len(said) >= 1, "the warning states the reachable coverage")
        c.eq(said[0], 100 * (1 - r.spec.cdf(0.0)), "reachable coverage in the warning", atol=1e-5)
        c.eq(lim[0], 0.0, "lower limit", atol=1e-300)
    c.reached("negative")


H.add(warned_again, name="warned_BreitWigner", params={"kind": "BreitWigner"}, witnesses=4, reach=["negative"], rtol=1e-6, bounds="two resonances whose intervals reach below zero, three intervals")
