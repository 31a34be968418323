"""C19: total Klein-Nishina cross section."""
from decimal import Decimal, localcontext
from .common import HarnessTable
from .c18 import setup

HARNESSES = H = HarnessTable()


class Dual:
    """value and derivative"""

    def __init__(self, v, d=0.0):
        self.v, self.d = v, d

    @staticmethod
    def of(o):
        return o if type(o) is Dual else Dual(o)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.v + o.v, self.d + o.d)

    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __sub__(self, o):
        return self + (-Dual.of(o))

    def __rsub__(self, o):
        return Dual.of(o) + (-self)

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))

    def __rtruediv__(self, o):
        return Dual.of(o) / self


def antiderivative(E, m, log, Ep):
    """of (E/Ep + Ep/E - sin^2 theta) with respect to Ep, log(z) is the logarithm of Ep/E"""
    a = 1 + m / E
    return (E - 2 * a * m) * log + Ep * Ep / (2 * E) - (1 - a * a) * Ep - m * m / Ep


def derivative(c):
    """the antiderivative belongs to the code's cross section per scattered energy"""
    k, E, m, r2 = setup(c)
    y = c.real("y", 0, 1, prefer=(0.05, 0.95))
    edge = E / (1 + 2 * E / m)
    Ep = edge + y * (E - edge)
    log = Dual(c.log(Ep / E), 1 / Ep)
    g = antiderivative(E, m, log, Dual(Ep, 1.0))
    c.eq(c.pi * r2 * m / E ** 2 * g.d, k.cs_diff_dEp(E, Ep), "derivative of the antiderivative", rtol=1e-5)


H.add(derivative, bounds="all energies, masses, proton numbers and scattered energies above the Compton edge", rtol=1e-5)


def spec(c, E, m, r2):
    """difference of the antiderivative at the limits"""
    if c.symbolic:
        x = E / m
        L = c.log(1 + 2 * x)
        edge = E / (1 + 2 * x)
        return c.pi * r2 * m / E ** 2 * (antiderivative(E, m, 0.0, E) - antiderivative(E, m, -L, edge))
    with localcontext() as lc:
        lc.prec = 60
        e, mm = Decimal(float(E)), Decimal(float(m))
        x = e / mm
        L = (1 + 2 * x).ln()
        return float(Decimal(c.pi) * Decimal(float(r2)) * mm / e ** 2 * (antiderivative(e, mm, 0, e) - antiderivative(e, mm, -L, e / (1 + 2 * x))))


def log_bounds(c, x, n=13):
    """partial sums of the alternating series of ln(1+2x) enclose it for 2x < 1"""
    if not c.symbolic:
        return
    y = 2 * x
    L = c.log(1 + y)
    s = 0.0
    p = 1.0
    for i in range(1, n + 1):
        p = p * y
        s = s + p / i * (1 if i % 2 else -1)
        if i == n - 1:
            c.lemma(L > s)
    c.lemma(L < s)


def total(c):
    k, E, m, r2 = setup(c)
    c.assume(E >= 0.01 * m)
    c.eq(k.cs_total(E), spec(c, E, m, r2), "total cross section", rtol=1e-8)
    c.eq(k(E), spec(c, E, m, r2), "cross section", rtol=1e-8)


H.add(total, bounds="energies above 0.01 mc^2, all masses and proton numbers", rtol=1e-8, witnesses=6)


def low(c):
    """the same at low energies"""
    kn = c.mod("ries.nonresonant.klein_nishina")
    x = c.real("x", 0, 0.01, strict=True, prefer=(1e-6, 0.01))
    m = c.const("electron mass energy equivalent in MeV")
    alpha = c.const("fine-structure constant")
    hbarc = c.const("Planck constant over 2 pi times c in MeV fm")
    r2 = (alpha * hbarc / m) ** 2
    log_bounds(c, x)
    k = kn.KleinNishina()
    # as a fraction of pi r^2, which has been checked by the other harnesses
    v = k.cs_total(x * m) / (c.pi * r2)
    if c.symbolic:
        L = c.log(1 + 2 * x)
        # from the antiderivative: x^3 v = rational + (x^2 - 2x - 2) L
        want = (2 * x * (2 + x * (1 + x) * (8 + x)) / (1 + 2 * x) ** 2 + (x * x - 2 * x - 2) * L)
        c.le(v * x ** 3, want + 1e-9 * x ** 3, "low-energy cross section from above", slack=0.0)
        c.le(want - 1e-9 * x ** 3, v * x ** 3, "low-energy cross section from below", slack=0.0)
    else:
        with localcontext() as lc:
            lc.prec = 80
            X = Decimal(float(x))
            w = (2 * X * (2 + X * (1 + X) * (8 + X)) / (1 + 2 * X) ** 2 + (X * X - 2 * X - 2) * (1 + 2 * X).ln()) / X ** 3
            w = float(w)
        c.eq(v, w, "low-energy cross section", rtol=0.0, atol=5e-10)
    c.reached("low")


H.add(low, bounds="energies below 0.01 mc^2", reach=["low"], rtol=1e-11, witnesses=6, timeout=60)


def forms_agree(c):
    """the closed form used at low energies is the difference of the antiderivative"""
    x = c.real("x", 0, prefer=(0.05, 5.0))
    L = c.log(1 + 2 * x)
    a = antiderivative(x, 1.0, 0.0, x) - antiderivative(x, 1.0, -L, x / (1 + 2 * x))
    b = 2 * x * (2 + x * (1 + x) * (8 + x)) / (1 + 2 * x) ** 2 + (x * x - 2 * x - 2) * L
    c.eq(a * x, b, "closed form", rtol=1e-6, atol=1e-9)


H.add(forms_agree, bounds="all energies")


def thomson(c):
    """never above the Thomson differential cross section, whose integral is the Thomson cross section"""
    k, E, m, r2 = setup(c)
    t = c.real("theta", 0, prefer=(0.02, 3.1))
    c.assume(t < c.pi)
    c.le(k.cs_diff_dOmega_unpolarized(E, t), r2 / 2 * (1 + c.cos(t) ** 2), "not above Thomson")
    u = c.real("u", prefer=(-1, 1))
    F = Dual(u, 1.0)
    F = F + F * F * F / 3
    c.eq(F.d, 1 + u * u, "antiderivative of 1+cos^2")
    c.eq(c.pi * r2 * ((1 + 1.0 / 3) - (-1 - 1.0 / 3)), 8 * c.pi / 3 * r2, "Thomson cross section")


H.add(thomson, bounds="all energies, masses, proton numbers and angles")


def scaling(c):
    kn = c.mod("ries.nonresonant.klein_nishina")
    E = c.real("E", 0, prefer=(0.01, 20.0))
    m = c.real("mc2", 0, prefer=(0.05, 2000.0))
    Z = c.real("Z", 0, prefer=(1.0, 90.0))
    s = c.real("s", 0, prefer=(0.1, 10.0))
    base = kn.KleinNishina(Z, m).cs_total(E)
    c.eq(kn.KleinNishina(s * Z, m).cs_total(E), s * base, "proportional to Z", rtol=1e-8)
    c.eq(kn.KleinNishina(Z, s * m).cs_total(s * E) * s * s, base, "scaling with the mass", rtol=1e-8)
    c.eq(kn.KleinNishina(1, m).cs_total(E) * Z, base, "default proton number", rtol=1e-8)
    me = c.const("electron mass energy equivalent in MeV")
    c.eq(kn.KleinNishina(Z).cs_total(E), kn.KleinNishina(Z, me).cs_total(E), "default mass", rtol=1e-12)


H.add(scaling, bounds="all energies, masses, proton numbers and factors", rtol=1e-8)


def arrays(c):
    k, E, m, r2 = setup(c)
    c.assume(E >= 0.01 * m)
    F = c.real("F", 0, prefer=(0.02, 20.0))
    a = c.array([E, F])
    v = k.cs_total(a)
    c.check(len(v) == 2, "array for array")
    c.eq(v[0], k.cs_total(E), "first element", rtol=1e-10)
    c.eq(v[1], k.cs_total(F), "second element", rtol=1e-10)
    c.eqs(a, [E, F], "energies of the caller")


H.add(arrays, bounds="arrays of two energies", rtol=1e-10)
