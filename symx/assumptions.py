"""What the library models assume (reported in the evidence)."""

ASSUMPTIONS = {
    "stats": "scipy.stats.norm/cauchy/uniform: location-scale families; cdf strictly increasing from 0 to 1, "
    "ppf its inverse, symmetric; ppf(0)=-inf, ppf(1)=inf; in saturating runs only weak monotonicity, range [0,1] "
    "and quantiles anywhere compatible with it",
    "newton": "scipy.optimize.newton: every element may converge or not; a converged value is a root of the "
    "function passed; all failing raises RuntimeError, some failing is flagged",
    "quad": "scipy.integrate.quad/nquad: exact integral; equal for equal integrand and limits, additive in the "
    "limits; uncertainty estimates arbitrary non-negative",
    "interp1d": "scipy.interpolate.interp1d: linear interpolation with the documented fill values",
    "voigt": "scipy.special.voigt_profile (and the real part of wofz, expressed by it): positive, even, reduces to Cauchy/normal density for a vanishing parameter",
    "transcendental": "exp, log, log10, cos, sin, arccos: monotonicity, inverse relations, identities and bounds, no series",
    "reals": "floating-point numbers are treated as real numbers; a float literal stands for its shortest decimal",
}
