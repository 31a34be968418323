"""C16: effective temperature in the Debye model."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def debye(c, t):
    return t ** 3 * (1.0 / (c.exp(t) - 1.0) + 0.5)


def integral(c, u):
    return c.quad(lambda t: debye(c, t), 0.0, u)


def temperatures(c, p=""):
    return c.real(p + "T", 0, prefer=(20.0, 600.0)), c.real(p + "TD", 0, prefer=(40.0, 1500.0))


def value(c):
    m = c.mod("ries.resonance.debye_model")
    T, TD = temperatures(c)
    v = m.effective_temperature_debye_approximation(T, TD)
    c.check(c.np.ndim(v) == 0, "a number for numbers")
    c.eq(v, 3 * T * (T / TD) ** 3 * integral(c, TD / T), "effective temperature")


H.add(value, bounds="all positive temperatures", rtol=1e-7)


def pointwise(c):
    """the integrand is never below t^2 and t^3/2, so the integral is not below u^3/3 and u^4/8"""
    t = c.real("t", 0, prefer=(0.01, 5.0))
    f = debye(c, t)
    c.lt(t ** 2, f, "integrand above t^2")
    c.lt(t ** 3 / 2, f, "integrand above t^3/2")


H.add(pointwise, bounds="all t > 0")


def bounds(c):
    """with these bounds of the integral the effective temperature is not below T and 3/8 T_D"""
    m = c.mod("ries.resonance.debye_model")
    T, TD = temperatures(c)
    v = m.effective_temperature_debye_approximation(T, TD)
    u = TD / T
    I = integral(c, u)
    c.lemma(I >= u ** 3 / 3)
    c.lemma(I >= u ** 4 / 8)
    c.le(T, v, "not below the thermodynamic temperature")
    c.le(TD * 3 / 8, v, "not below 3/8 of the Debye temperature")


H.add(bounds, bounds="all positive temperatures", rtol=1e-7)


def scaling(c):
    m = c.mod("ries.resonance.debye_model")
    T, TD = temperatures(c)
    s = c.real("s", 0, prefer=(0.2, 5.0))
    f = m.effective_temperature_debye_approximation
    c.eq(f(s * T, s * TD), s * f(T, TD), "scaling")


H.add(scaling, bounds="all positive temperatures and factors", rtol=1e-7)


def arrays(c):
    m = c.mod("ries.resonance.debye_model")
    f = m.effective_temperature_debye_approximation
    n = c.choice("n", [1, 2, 3])
    which = c.choice("which", ["T", "TD", "both"])
    Ts = [c.real("T%d" % i, 0, prefer=(20.0, 600.0)) for i in range(n)]
    Ds = [c.real("TD%d" % i, 0, prefer=(40.0, 1500.0)) for i in range(n)]
    a, b = c.array(Ts), c.array(Ds)
    if which == "T":
        v = f(a, Ds[0])
        pairs = [(t, Ds[0]) for t in Ts]
    elif which == "TD":
        v = f(Ts[0], b)
        pairs = [(Ts[0], d) for d in Ds]
    else:
        v = f(a, b)
        pairs = list(zip(Ts, Ds))
    c.eqs(v, [3 * t * (t / d) ** 3 * integral(c, d / t) for t, d in pairs], "effective temperatures")
    c.eqs(a, Ts, "temperatures of the caller")
    c.eqs(b, Ds, "Debye temperatures of the caller")
    c.reached(which)


H.add(arrays, bounds="arrays of 1 to 3 temperatures and/or Debye temperatures", rtol=1e-7, reach=["T", "TD", "both"])


def zero(c):
    m = c.mod("ries.resonance.debye_model")
    T, TD = temperatures(c)
    f = m.effective_temperature_debye_approximation
    how = c.choice("how", ["float", "int"])
    z = {"float": 0.0, "int": 0}[how]
    c.raises(ZeroDivisionError, lambda: f(z, TD), "zero temperature as %s" % how)


H.add(zero, bounds="temperature exactly zero as float or integer")


def integer_input(c):
    """integer temperatures give the same as the corresponding floats"""
    m = c.mod("ries.resonance.debye_model")
    f = m.effective_temperature_debye_approximation
    T, TD = c.int_("T", 1, 2000), c.int_("TD", 1, 3000)
    if c.choice("array", [0, 1]):
        v = f(c.int_array([T, T + 1]), TD)
        c.eq(v[0], 3 * T * ((T * 1.0) / TD) ** 3 * integral(c, (TD * 1.0) / T), "first element")
        c.eq(v[1], 3 * (T + 1) * ((T + 1.0) / TD) ** 3 * integral(c, (TD * 1.0) / (T + 1)), "second element")
    else:
        c.eq(f(T, TD), 3 * T * ((T * 1.0) / TD) ** 3 * integral(c, (TD * 1.0) / T), "value")


H.add(integer_input, bounds="integer temperatures up to 2000 K, Debye temperatures up to 3000 K", rtol=1e-6)
