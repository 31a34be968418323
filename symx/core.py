"""Symbolic execution of ordinary Python/NumPy code over z3 terms.

The code under test runs natively in CPython.  Its inputs are `SymReal`,
`SymBool` and `SymStr` objects that build z3 terms; whenever Python asks for
the truth value of a symbolic condition, the engine asks the solver which
outcomes are possible and forks (depth-first re-execution).  Real arithmetic
is used for floating-point numbers.
"""
import math
import sys
import time
from fractions import Fraction
import numbers
import itertools
import random

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402
from . import solve  # noqa: E402


class Stop(BaseException):
    """Base class of everything that steers the engine (never caught by code under test)."""


class Infeasible(Stop):
    """The current path condition is contradictory."""


class Unsupported(Stop):
    """The code under test left the fragment the engine can encode."""


class PathBudget(Stop):
    pass


class CheckFailed(Exception):
    """Concrete mode: a check does not hold."""


ENGINE = None


def eng():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside of the engine")
    return ENGINE


def frac(x):
    """Exact rational value of a concrete Python/NumPy number"""
    if isinstance(x, Fraction):
        return x
    if type(x) is bool or isinstance(x, np.bool_):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return snap(float(x))


_PI = 3.141592653589793


def snap(x):
    """The rational a float literal stands for: its shortest decimal, or a simple
    fraction if the decimal is only a truncated one (0.3333333333333333)."""
    r = repr(x)
    f = Fraction(r)
    m = r.split("e")[0].replace(".", "").replace("-", "").strip("0")
    if len(m) < 15:
        return f
    g = f.limit_denominator(20000)
    if g != 0 and abs(g - f) <= abs(f) * Fraction(3, 10 ** 16):
        return g
    return f


_PIMULT = {}
for _n in range(1, 33):
    for _d in (1, 2, 3, 4, 6, 8, 12, 180):
        _PIMULT.setdefault(_n * _PI / _d, Fraction(_n, _d))


def rv(fr):
    return z3.RatVal(fr.numerator, fr.denominator)


def is_sym(x):
    return type(x) in (SymReal, SymBool)


_NUM = (int, float, Fraction, np.number, np.bool_)


def is_num(x):
    t = type(x)
    return t is not SymReal and t is not SymBool and issubclass(t, _NUM)


def special(x):
    """concrete inf / nan"""
    return isinstance(x, (float, np.floating)) and (x != x or x in (float("inf"), float("-inf")))


def lift(x):
    t = type(x)
    if t is SymReal:
        return x
    if t is SymBool:
        return SymReal(z3.If(x.e, z3.RealVal(1), z3.RealVal(0)), sgn="0+")
    if t is np.ndarray and x.ndim == 0:
        return lift(x.item())
    if is_num(x):
        if ENGINE is not None and isinstance(x, float) and abs(x) in _PIMULT:
            p = ENGINE.pi * _PIMULT[abs(x)]
            return p if x > 0 else -p
        f = frac(x)
        return SymReal(rv(f), const=f, sgn=_fsgn(f), isint=isinstance(x, (int, np.integer)))
    raise TypeError("cannot lift %r" % (type(x),))


def _fsgn(f):
    return "+" if f > 0 else "-" if f < 0 else "0"


# sign lattice -----------------------------------------------------------------
def _sgn_add(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    if a is None or b is None:
        return None
    if a in ("+", "0+") and b in ("+", "0+"):
        return "+" if "+" in (a, b) else "0+"
    if a in ("-", "0-") and b in ("-", "0-"):
        return "-" if "-" in (a, b) else "0-"
    return None


def _sgn_neg(a):
    return {"+": "-", "-": "+", "0+": "0-", "0-": "0+", "0": "0", None: None}[a]


def _sgn_mul(a, b):
    if a == "0" or b == "0":
        return "0"
    if a is None or b is None:
        return None
    neg = (a[-1] == "-") != (b[-1] == "-")
    strict = len(a) == 1 and len(b) == 1
    return ("" if strict else "0") + ("-" if neg else "+")


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return eng().decide(self.e)

    @staticmethod
    def _b(o):
        if type(o) is SymBool:
            return o.e
        if type(o) is SymReal:
            return o.e != 0
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SymBool(z3.And(self.e, self._b(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SymBool(z3.Or(self.e, self._b(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, self._b(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        return SymBool(self.e == self._b(o))

    def __ne__(self, o):
        return SymBool(self.e != self._b(o))

    def __hash__(self):
        return 104729

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __int__(self):
        return 1 if bool(self) else 0

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __index__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return "SymBool(%s)" % self.e


class SymReal:
    """A real (or, with isint, integer-valued) symbolic number"""

    __slots__ = ("e", "const", "sgn", "isint", "ie")
    __array_priority__ = 1000

    def __init__(self, e, const=None, sgn=None, isint=False, ie=None):
        self.e = e
        self.const = const
        self.sgn = sgn
        self.isint = isint or (const is not None and const.denominator == 1 and isint)
        self.ie = ie  # the z3 Int term, for integer-valued numbers

    @property
    def __class__(self):
        return int if self.isint else float

    # -- arithmetic --------------------------------------------------------
    @staticmethod
    def _arg(o):
        if type(o) is SymReal or type(o) is SymBool:
            return lift(o)
        if isinstance(o, np.ndarray):
            if o.ndim == 0:
                o = o.item()
                return SymReal._arg(o)
            return None
        if is_num(o):
            if special(o):
                return o
            return lift(o)
        return None

    def _like(self, o):
        """this value after an operation with the neutral element o"""
        return SymReal(self.e, self.const, self.sgn) if self.isint and not o.isint else self

    def __add__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            return b
        if self.const is not None and b.const is not None:
            f = self.const + b.const
            return SymReal(rv(f), f, _fsgn(f), self.isint and b.isint)
        if b.const == 0:
            return self._like(b)
        if self.const == 0:
            return b._like(self)
        sg = _sgn_add(self.sgn, b.sgn)
        e = self.e + b.e
        if sg is None and ENGINE is not None:
            sg = ENGINE.known_sign(e, self.e, b.e)
        return SymReal(e, None, sg, self.isint and b.isint)

    __radd__ = __add__

    def __neg__(self):
        if self.const is not None:
            return SymReal(rv(-self.const), -self.const, _fsgn(-self.const), self.isint)
        return SymReal(-self.e, None, _sgn_neg(self.sgn), self.isint)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            return -b
        if self.const is not None and b.const is not None:
            f = self.const - b.const
            return SymReal(rv(f), f, _fsgn(f), self.isint and b.isint)
        if b.const == 0:
            return self._like(b)
        sg = _sgn_add(self.sgn, _sgn_neg(b.sgn))
        e = self.e - b.e
        if sg is None and ENGINE is not None:
            sg = ENGINE.known_sign(e, self.e, b.e)
        return SymReal(e, None, sg, self.isint and b.isint)

    def __rsub__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            return b
        return b - self

    def __mul__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            return self._mul_special(b)
        if self.const is not None and b.const is not None:
            f = self.const * b.const
            return SymReal(rv(f), f, _fsgn(f), self.isint and b.isint)
        if b.const == 1:
            return self._like(b)
        if self.const == 1:
            return b._like(self)
        if b.const == 0 or self.const == 0:
            return lift(0 if self.isint and b.isint else 0.0)
        sg = _sgn_mul(self.sgn, b.sgn)
        if sg is None and z3.eq(self.e, b.e):
            sg = "0+"
        return SymReal(self.e * b.e, None, sg, self.isint and b.isint)

    __rmul__ = __mul__

    def _mul_special(self, b):
        if b != b:
            return b
        if self == 0:
            return float("nan")
        return b if self > 0 else -b

    def nonzero(self):
        """fork on self == 0; True on the nonzero branch"""
        if self.const is not None:
            return self.const != 0
        if self.sgn in ("+", "-"):
            return True
        return not bool(SymBool(self.e == 0))

    def __truediv__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            return b if b != b else 0.0
        if not b.nonzero():
            raise ZeroDivisionError("float division by zero")
        if self.const is not None and b.const is not None:
            f = self.const / b.const
            return SymReal(rv(f), f, _fsgn(f))
        if b.const is not None:
            f = 1 / b.const
            return self * SymReal(rv(f), f, _fsgn(f))
        if self.const == 0:
            return lift(0.0)
        if z3.is_mul(self.e):
            ch = self.e.children()
            for i, x in enumerate(ch):
                if z3.eq(x, b.e):
                    rest = ch[:i] + ch[i + 1:]
                    return SymReal(rest[0] if len(rest) == 1 else z3.Product(*rest), None, _sgn_mul(self.sgn, b.sgn))
        return SymReal(self.e / b.e, None, _sgn_mul(self.sgn, b.sgn))

    def __rtruediv__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            return self._mul_special(b)
        return b / self

    def __floordiv__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        q = self / b
        return q.__floor__()

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        b = self._arg(o)
        if b is None:
            return NotImplemented
        return self - b * (self // b)

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if type(o) is SymReal and o.const is not None:
            o = o.const
        if type(o) is SymReal:
            if self.const == 10:
                return eng().pow10(o)
            return eng().exp(o * eng().log(self))
        if special(o):
            if self.const is not None:
                return float(np.power(float(self.const), float(o)))
            raise Unsupported("power with special exponent")
        if self.isint and isinstance(o, float):
            self = SymReal(self.e, self.const, self.sgn)
        f = frac(o)
        if f.denominator != 1:
            g = f.limit_denominator(60)
            if abs(float(g) - float(f)) < 1e-15:
                f = g
            else:
                raise Unsupported("power with exponent %r" % (o,))
        if f == 0:
            return lift(1 if self.isint else 1.0)
        if f < 0:
            return lift(1.0) / (self ** (-f))
        if f.denominator == 1:
            n = f.numerator
            if n > 64:
                raise Unsupported("power %d" % n)
            r = self
            for _ in range(n - 1):
                r = r * self
            if n % 2 == 0 and r.sgn is None:
                r = SymReal(r.e, r.const, "0+", r.isint)
            return r
        r = eng().root(self, f.denominator)
        return r ** f.numerator

    def __rpow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if self.const is not None:
            return b ** self.const
        return b ** self

    def __abs__(self):
        if self.const is not None:
            return lift(abs(self.const))
        if self.sgn in ("+", "0+"):
            return self
        if self.sgn in ("-", "0-"):
            return -self
        return SymReal(z3.If(self.e >= 0, self.e, -self.e), None, "0+", self.isint)

    fabs = absolute = __abs__

    # -- comparisons -------------------------------------------------------
    def _cmp(self, o, op):
        if o is None:
            return NotImplemented
        b = self._arg(o)
        if b is None:
            return NotImplemented
        if type(b) is not SymReal:
            # concrete infinity or nan against a finite real
            return {"<": 0.0 < b, "<=": 0.0 <= b, ">": 0.0 > b, ">=": 0.0 >= b}[op]
        if ENGINE is not None and ENGINE.decimal and ENGINE._ln10 is not None and not (self.const is not None and b.const is not None):
            u, v = ENGINE.strip_ln10(self), ENGINE.strip_ln10(b)
            if u is not None and v is not None:
                return u._cmp(v, op)
        if self.const is not None and b.const is not None:
            x, y = self.const, b.const
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        s = _sgn_add(self.sgn, _sgn_neg(b.sgn))
        if s is not None:
            if s == "0":
                return op in ("<=", ">=")
            if op == ">" and s in ("+", "-", "0-"):
                return s == "+"
            if op == "<" and s in ("+", "-", "0+"):
                return s == "-"
            if op == ">=" and s in ("+", "0+", "-"):
                return s != "-"
            if op == "<=" and s in ("-", "0-", "+"):
                return s != "+"
        e = {
            "<": lambda: self.e < b.e,
            "<=": lambda: self.e <= b.e,
            ">": lambda: self.e > b.e,
            ">=": lambda: self.e >= b.e,
        }[op]()
        return SymBool(e)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        b = self._arg(o)
        if b is None:
            return False
        if type(b) is not SymReal:
            return False
        if self.const is not None and b.const is not None:
            return self.const == b.const
        if z3.eq(self.e, b.e):
            return True
        return SymBool(self.e == b.e)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if type(r) is SymBool:
            return SymBool(z3.Not(r.e))
        return not r

    def __hash__(self):
        if self.const is not None:
            return hash(self.const)
        return 7919

    def __bool__(self):
        return self.nonzero()

    # -- conversions -------------------------------------------------------
    def __float__(self):
        if self.const is not None:
            return float(self.const)
        raise Unsupported("float() of a symbolic value inside compiled code")

    def __int__(self):
        if self.const is not None:
            return int(self.const)
        raise Unsupported("int() of a symbolic value inside compiled code")

    def __index__(self):
        if self.const is not None and self.const.denominator == 1:
            return int(self.const)
        if self.isint:
            return eng().concretize_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def _int_term(self):
        return z3.ToInt(self.e)

    def __floor__(self):
        if self.const is not None:
            import math

            return lift(math.floor(self.const))
        if self.isint:
            return self
        return SymReal(z3.ToReal(z3.ToInt(self.e)), None, "0+" if self.sgn in ("+", "0+") else None, True)

    floor = __floor__

    def __ceil__(self):
        return -((-self).__floor__())

    ceil = __ceil__

    def __trunc__(self):
        if self.isint:
            return self
        if self >= 0:
            return self.__floor__()
        return self.__ceil__()

    trunc = __trunc__

    def __round__(self, n=None):
        s = 10 ** (n or 0) if (n or 0) >= 0 else Fraction(1, 10 ** -n)
        r = (self * s + Fraction(1, 2)).__floor__()
        if n is None:
            return r
        r = r / s
        return SymReal(r.e, r.const, r.sgn)

    def rint(self):
        return self.__round__()

    def round(self, n=0):
        return self.__round__(n)

    def is_integer(self):
        if self.isint:
            return True
        return SymBool(z3.IsInt(self.e))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic value")

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return lift(0.0)

    @property
    def T(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def copy(self):
        return self

    def astype(self, dtype, *a, **k):
        return eng().shim_cast(self, dtype)

    # -- functions (also called by NumPy's object loops) --------------------
    def sqrt(self):
        return eng().root(self, 2)

    def cbrt(self):
        return eng().root(self, 3)

    def square(self):
        return self * self

    def reciprocal(self):
        return lift(1.0) / self

    def exp(self):
        return eng().exp(self)

    def expm1(self):
        return eng().exp(self) - 1

    def sinh(self):
        v = eng().exp(self)
        return (v - lift(1.0) / v) / 2

    def cosh(self):
        v = eng().exp(self)
        return (v + lift(1.0) / v) / 2

    def tanh(self):
        v = eng().exp(self)
        return (v * v - 1) / (v * v + 1)

    def log(self):
        return eng().log(self)

    def log1p(self):
        return eng().log(self + 1)

    def log10(self):
        return eng().log10(self)

    def exp2(self):
        return lift(2) ** self

    def hypot(self, o):
        return (self * self + lift(o) * o).sqrt()

    def log2(self):
        return eng().log(self) / eng().log(lift(2))

    def cos(self):
        return eng().trig(self)[0]

    def sin(self):
        return eng().trig(self)[1]

    def tan(self):
        c, s = eng().trig(self)
        return s / c

    def arccos(self):
        return eng().arccos(self)

    acos = arccos

    def arctan(self):
        from . import models

        return eng().pi * (models.cauchy._cdf(self, lift(0.0), lift(1.0)) - Fraction(1, 2))

    def arcsin(self):
        return eng().pi / 2 - eng().arccos(self)

    def sign(self):
        if self == 0:
            return 0.0
        return 1.0 if self > 0 else -1.0

    def isnan(self):
        return False

    def isinf(self):
        return False

    def isfinite(self):
        return True

    def deg2rad(self):
        return self * eng().pi / 180

    radians = deg2rad

    def __format__(self, spec):
        return eng().format_token(self)

    def __str__(self):
        return eng().format_token(self) if ENGINE is not None else repr(self)

    def __repr__(self):
        return "Sym(%s)" % (self.const if self.const is not None else str(self.e)[:80])


# ---------------------------------------------------------------------------
class SymComplex:
    """a pair of real numbers, for the few functions of a complex argument"""

    __slots__ = ("real", "imag")
    __array_priority__ = 1000

    def __init__(self, real, imag):
        self.real, self.imag = real, imag

    @staticmethod
    def _pair(o):
        if type(o) is SymComplex:
            return o.real, o.imag
        if isinstance(o, (complex, np.complexfloating)) and not type(o) is SymReal:
            return lift(float(o.real)), lift(float(o.imag))
        if type(o) is SymReal or (is_num(o) and not special(o)):
            return lift(o), lift(0.0)
        return None

    def __add__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else SymComplex(self.real + p[0], self.imag + p[1])

    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __sub__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else SymComplex(self.real - p[0], self.imag - p[1])

    def __rsub__(self, o):
        return -(self - o)

    def __mul__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        return SymComplex(self.real * p[0] - self.imag * p[1], self.real * p[1] + self.imag * p[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._pair(o)
        if p is None:
            return NotImplemented
        if p[1].const == 0:
            return SymComplex(self.real / p[0], self.imag / p[0])
        n = p[0] * p[0] + p[1] * p[1]
        r = self * SymComplex(p[0], -p[1])
        return SymComplex(r.real / n, r.imag / n)

    def __rtruediv__(self, o):
        p = self._pair(o)
        return NotImplemented if p is None else SymComplex(*p) / self

    def conjugate(self):
        return SymComplex(self.real, -self.imag)


def _with_complex(name):
    """operations with complex numbers, which are rare"""
    plain = getattr(SymReal, name)

    def op(self, o):
        r = plain(self, o)
        if r is NotImplemented and type(o) in (complex, np.complex128):
            return getattr(SymComplex(self, lift(0.0)), name)(o)
        return r

    op.__name__ = name
    return op


for _name in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__"):
    setattr(SymReal, _name, _with_complex(_name))


class Stats:
    def __init__(self):
        self.queries = 0
        self.feas_queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.infeasible = 0
        self.by_stage = {}


class Candidate:
    """A satisfiable negated check: needs replay on the real code"""

    def __init__(self, label, assignment, detail):
        self.label = label
        self.assignment = assignment
        self.detail = detail


class Input:
    def __init__(self, name, var, lo, hi, prefer, isint=False):
        self.name, self.var, self.lo, self.hi, self.prefer, self.isint = name, var, lo, hi, prefer, isint


def z3vars(e, cache={}):
    """names of the uninterpreted constants in e"""
    key = e.get_id()
    hit = cache.get(key)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    seen = set()
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        else:
            stack.extend(x.children())
    if len(cache) > 200000:
        cache.clear()
    cache[key] = (e, frozenset(out))
    return cache[key][1]


class Engine:
    def __init__(self, seed=1, feas_timeout=1500, query_timeout=20000, stats=None, verbose=False):
        self.seed = seed
        self.rng = random.Random(seed)
        self.feas_timeout = feas_timeout
        self.query_timeout = query_timeout
        self.stats = stats or Stats()
        self.verbose = verbose
        self.trail = []
        self.conc_values = {}
        self.reset()

    # ------------------------------------------------------------------
    def reset(self):
        self.pos = 0
        self.sign_facts = {}
        self.defs = {}          # atom -> (real function, argument terms), for proposing inputs
        self.path = []          # path condition (decisions, assumptions)
        self.axioms = []        # true facts about atoms
        self.inputs = {}
        self.choices = {}
        self.apps = {}          # function name -> list of (arg, value)
        self.families = []
        self.quads = []
        self.tokens = []
        self.counter = itertools.count()
        self.candidates = []
        self.undecided = []
        self.checks = 0
        self.discharged = 0
        self.notes = []
        self.saturating = False
        self.obs = {}
        self.used_models = set()
        self.dist = {}
        self.opaque = {}
        self.newton_flags = []
        self.newton_roots = []
        self.powers = []
        self.newton_always = False
        self.newton_start = False
        self.decimal = False
        self._ln10 = None
        self.nquad_hook = None
        self.digit_chars = {}
        self.loading = 0
        self.pi = self._mkpi()
        self._decide_cache = {}

    # ------------------------------------------------------------------
    def fresh(self, name, sgn=None):
        n = "%s!%d" % (name, next(self.counter))
        if sgn is not None:
            self.sign_facts[((((n, 1),), Fraction(1)),)] = sgn
        return SymReal(z3.Real(n), None, sgn)

    def define(self, v, fn, *args):
        self.defs[v.e.decl().name()] = (fn, [a.e for a in args])

    def axiom(self, e):
        if type(e) is SymBool:
            e = e.e
        if e is True:
            return
        self.axioms.append(e)
        self._fact(e)

    def assume(self, c):
        if type(c) is SymReal:
            c = c != 0
        if type(c) is not SymBool:
            if not c:
                raise Infeasible()
            return
        self.path.append(c.e)
        self._fact(c.e)

    def _mkpi(self):
        p = z3.Real("pi")
        self.sign_facts[(((("pi", 1),), Fraction(1)),)] = "+"
        self.axioms += [p > rv(Fraction("3.14159265358979")), p < rv(Fraction("3.14159265358980"))]
        return SymReal(p, None, "+")

    # -- inputs --------------------------------------------------------
    def real(self, name, lo=None, hi=None, strict=True, prefer=None, isint=False):
        if name in self.inputs:
            return self.inputs[name][1]
        if isint:
            iv = z3.Int(name)
            e = z3.ToReal(iv)
        else:
            e = z3.Real(name)
        sgn = None
        if lo is not None:
            flo = frac(lo)
            self.axiom(e > rv(flo) if strict else e >= rv(flo))
            if flo > 0:
                sgn = "+"
            elif flo == 0:
                sgn = "+" if strict else "0+"
        if hi is not None:
            fhi = frac(hi)
            self.axiom(e < rv(fhi) if strict else e <= rv(fhi))
            if fhi < 0:
                sgn = "-"
            elif fhi == 0 and sgn is None:
                sgn = "-" if strict else "0-"
        if sgn is not None and not isint:
            self.sign_facts[((((name, 1),), Fraction(1)),)] = sgn
        s = SymReal(e, None, sgn, isint)
        self.inputs[name] = (Input(name, e, lo, hi, prefer, isint), s)
        return s

    # -- signs -----------------------------------------------------------
    def _fact(self, c, truth=True):
        """remember the sign of b - a for a fact a < b, a <= b"""
        from . import poly

        while z3.is_not(c):
            c, truth = c.arg(0), not truth
        if z3.is_and(c) and truth:
            for x in c.children():
                self._fact(x)
            return
        if z3.is_or(c) and not truth:
            for x in c.children():
                self._fact(x, False)
            return
        k = c.decl().kind()
        if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
            return
        a, b = c.arg(0), c.arg(1)
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
            a, b = b, a  # a < b
        if not truth:
            a, b, strict = b, a, not strict
        try:
            n, d = poly.norm(b - a)
        except poly.TooBig:
            return
        if d != poly.ONE or len(n) > 30 or not n:
            return
        key, flip = _pkey(n)
        sg = "+" if strict else "0+"
        if flip:
            sg = _sgn_neg(sg)
        old = self.sign_facts.get(key)
        if old is None or len(old) > 1:
            self.sign_facts[key] = sg

    def known_sign(self, e, a, b):
        from . import poly

        try:
            if len(poly.norm(a)[0]) > 20 or len(poly.norm(b)[0]) > 20:
                return None
            n, d = poly.norm(e)
        except poly.TooBig:
            return None
        sd = self._psign(d)
        if sd not in ("+", "-"):
            return None
        sn = self._psign(n)
        return sn if sd == "+" else _sgn_neg(sn)

    def _psign(self, n):
        if not n:
            return "0"
        if len(n) <= 30:
            key, flip = _pkey(n)
            sg = self.sign_facts.get(key)
            if sg is not None:
                return _sgn_neg(sg) if flip else sg
        tot = "0"
        for m, c in n.items():
            t = _fsgn(c)
            for v, k in m:
                sv = self.var_sign(v)
                if k % 2 == 0:
                    sv = "+" if sv in ("+", "-") else "0+"
                for _ in range(1 if k % 2 == 0 else 1):
                    t = _sgn_mul(t, sv)
            tot = _sgn_add(tot, t)
            if tot is None:
                return None
        return tot

    def var_sign(self, name):
        return self.sign_facts.get((((( name, 1),), Fraction(1)),))

    # -- decisions -------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        V = set()
        for x in extra:
            V |= z3vars(x)
        cons = self.axioms + self.path
        W = set(V)
        for c in cons:
            vs = z3vars(c)
            if vs & V and len(vs) <= 6:
                W |= vs
        sub = [c for c in cons if z3vars(c) <= W]
        if len(sub) < len(cons) and solve.solve(sub + list(extra), min(0.4, self.feas_timeout / 1000.0), None, seed=self.seed)[0] == "unsat":
            self.stats.solver_s += time.time() - t
            self.stats.feas_queries += 1
            return z3.unsat
        r, _ = solve.solve(cons + list(extra), self.feas_timeout / 1000.0, None, seed=self.seed)
        r = {"sat": z3.sat, "unsat": z3.unsat}.get(r, z3.unknown)
        self.stats.solver_s += time.time() - t
        self.stats.feas_queries += 1
        return r

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self._decide_cache.get(key)
        if hit is not None and hit[0].eq(e):
            return hit[1]
        self.stats.decisions += 1
        if self.pos < len(self.trail):
            d = self.trail[self.pos][0]
            self.pos += 1
        else:
            can_t = self._check(e) != z3.unsat
            can_f = self._check(z3.Not(e)) != z3.unsat
            if not can_t and not can_f:
                raise Infeasible()
            d = can_t
            self.trail.append((d, can_t and can_f))
            self.pos += 1
            if len(self.trail) > self.max_depth:
                raise PathBudget("depth")
        c = e if d else z3.Not(e)
        self.path.append(c)
        self._fact(c)
        self._decide_cache[key] = (e, d)
        return d

    max_depth = 400

    def choose(self, n, name):
        """n-way concrete choice (recorded as an input)"""
        if self.pos < len(self.trail):
            k = self.trail[self.pos][0]
            self.pos += 1
        else:
            k = 0
            self.trail.append((0, n > 1, n))
            self.pos += 1
        return k

    def choose_input(self, name, n):
        k = self.choose(n, name)
        self.choices[name] = k
        return k

    def concretize_int(self, s):
        """enumerate the possible values of an integer-valued term"""
        for _ in range(200):
            key = tuple(x[0] for x in self.trail[: self.pos])
            f = self.conc_values.get(key)
            if f is None:
                r, m = solve.solve(self.axioms + self.path, self.feas_timeout / 1000.0, None, [("v", s.e)], self.seed)
                if r != "sat" or m["v"] is None:
                    raise Unsupported("cannot concretize an integer")
                f = self.conc_values[key] = Fraction(*m["v"])
            if self.decide(s.e == rv(f)):
                return int(f)
        raise Unsupported("too many integer values")

    # -- exploration -----------------------------------------------------
    def explore(self, body, max_paths=2000, deadline=None):
        """run body(self) for every feasible path; yields (status, exception)"""
        global ENGINE
        self.trail = []
        n = 0
        while True:
            self.reset()
            prev = ENGINE
            ENGINE = self
            status, exc = "ok", None
            try:
                body(self)
            except Infeasible as ex:
                status, exc = "infeasible", ex
                self.stats.infeasible += 1
            except Unsupported as ex:
                status, exc = "unsupported", ex
            except PathBudget as ex:
                status, exc = "budget", ex
            finally:
                self._ended = True
            n += 1
            self.stats.paths += 1
            try:
                yield status, exc
            finally:
                ENGINE = prev
            # next path
            while self.trail:
                last = self.trail[-1]
                if len(last) == 3:
                    k, _, m = last
                    if k + 1 < m:
                        self.trail[-1] = (k + 1, k + 2 < m, m)
                        break
                    self.trail.pop()
                elif last[1]:
                    self.trail[-1] = (not last[0], False)
                    break
                else:
                    self.trail.pop()
            else:
                return
            if n >= max_paths or (deadline and time.time() > deadline):
                ENGINE = self
                self.reset()
                try:
                    yield "budget", PathBudget("paths or time")
                finally:
                    ENGINE = prev
                return

    # -- formatting --------------------------------------------------------
    def format_token(self, s):
        for i, t in enumerate(self.tokens):
            if z3.eq(t.e, s.e):
                return "⟦%d⟧" % i
        self.tokens.append(s)
        return "⟦%d⟧" % (len(self.tokens) - 1)

    def shim_cast(self, s, dtype):
        try:
            dt = np.dtype(dtype)
        except TypeError:
            return s
        if dt.kind in "iu":
            return s.__trunc__()
        if dt.kind == "f" and dt.itemsize < 8:
            return self.round32(s)
        if dt.kind == "b":
            return s != 0
        return s

    def round32(self, s):
        """single-precision rounding: relative error up to 2**-24"""
        if s.const is not None:
            return lift(float(np.float32(float(s.const))))
        r = self.fresh("f32", s.sgn)
        d = self.fresh("ulp32")
        h = Fraction(1, 2 ** 24)
        self.axiom(z3.And(d.e >= rv(-h), d.e <= rv(h)))
        self.axiom(r.e == s.e * (1 + d.e))
        return r

    # -- uninterpreted functions with ground axioms --------------------------
    def _find(self, name, arg):
        for a, v in self.apps.setdefault(name, []):
            if z3.eq(a.e, arg.e):
                return v
        d = z3.simplify(arg.e, som=True)
        for a, v in self.apps[name]:
            if z3.eq(z3.simplify(a.e, som=True), d):
                return v
            if self.same(a, arg):
                return v
        return None

    def same(self, a, b):
        """cheap syntactic proof of equality of two rational functions"""
        if z3.eq(a.e, b.e):
            return True
        if a.const is not None and b.const is not None:
            return a.const == b.const
        from .poly import identical

        return identical(a.e, b.e)

    def relations(self):
        out = list(self.powers)
        for name, lst in self.apps.items():
            if name.startswith("root"):
                n = int(name[4:])
                for x, v in lst:
                    out.append((v.e.decl().name(), n, x.e))
            elif name == "trig":
                for a, (c, s) in lst:
                    if z3.is_const(s.e) and s.e.decl().name().startswith("sin!"):
                        out.append((s.e.decl().name(), 2, 1 - c.e * c.e))

        def num(nm):
            try:
                return int(nm.rsplit("!", 1)[1])
            except (IndexError, ValueError):
                return 0

        out.sort(key=lambda r: -num(r[0]))
        return out

    def _normal_eq(self, a, b):
        from . import poly

        try:
            return not poly.difference(a.e, b.e, self.relations())
        except poly.TooBig:
            return False

    def proved_eq(self, a, b, timeout=1500):
        """is a == b in every model of the current path?"""
        a, b = lift(a), lift(b)
        if self.same(a, b):
            return True
        from . import poly

        try:
            if not poly.difference(a.e, b.e, self.relations()):
                return True
        except poly.TooBig:
            pass
        old, self.feas_timeout = self.feas_timeout, timeout
        r = self._check(a.e != b.e)
        self.feas_timeout = old
        return r == z3.unsat

    def monotone(self, name, arg, val):
        """congruence + strict monotonicity against all earlier applications"""
        for a, v in self.apps.get(name, []):
            self.axiom(z3.And((a.e < arg.e) == (v.e < val.e), (a.e == arg.e) == (v.e == val.e)))

    def root(self, x, n):
        x = lift(x)
        if x.const is not None:
            if x.const == 0:
                return lift(0.0)
            if x.const > 0:
                p = _iroot(x.const.numerator, n)
                q = _iroot(x.const.denominator, n)
                if p is not None and q is not None:
                    return lift(Fraction(p, q))
        if x.sgn not in ("+", "0+", "0"):
            if bool(x < 0):
                if n % 2 == 0:
                    return float("nan")
                return -self.root(-x, n)
        if n == 2:
            v = self._split_root(x)
            if v is not None:
                return v
        return self._root_atom(x, n)

    def _monomial(self, x):
        """[(positive variable or constant, exponent)] if x is such a product of several factors"""
        from . import poly

        if x.const is not None:
            return None
        try:
            N, D = poly.norm(x.e)
        except poly.TooBig:
            return None
        if len(N) != 1 or len(D) != 1:
            return None
        (mn, cn), = N.items()
        (md, cd), = D.items()
        c = cn / cd
        if c <= 0 or any(self.var_sign(v) != "+" for m in (mn, md) for v, _ in m):
            return None
        parts = [(lift(c), 1)] if c != 1 else []
        for m, sg in ((mn, 1), (md, -1)):
            for v, k in m:
                a = SymReal(poly._names[v])
                a.sgn = "+"
                parts.append((a, sg * k))
        return parts if len(parts) > 1 or parts and parts[0][1] != 1 else None

    def _split_root(self, x):
        """square root as a product over small primes and variables, so that equal roots look equal"""
        from . import poly

        if x.const is not None:
            N, D = {(): x.const}, poly.ONE
        else:
            try:
                N, D = poly.norm(x.e)
            except poly.TooBig:
                return None
            if len(N) != 1 or len(D) != 1:
                return None
        (mn, cn), = N.items()
        (md, cd), = D.items()
        c = cn / cd
        if c <= 0:
            return None
        names = dict(mn)
        if any(self.var_sign(v) not in ("+", "0+") for v in names) or any(self.var_sign(v) != "+" for v, _ in md):
            return None
        parts = []
        for q, sg in ((c.numerator, 1), (c.denominator, -1)):
            for p in (2, 3, 5, 7, 11, 13):
                k = 0
                while q % p == 0:
                    q //= p
                    k += 1
                if k:
                    parts.append((lift(Fraction(p)), sg * k))
            r = _iroot(q, 2)
            if r is not None:
                parts.append((lift(Fraction(r)), sg * 2))
            else:
                parts.append((lift(Fraction(q)), sg))
        for m, sg in ((mn, 1), (md, -1)):
            for v, k in m:
                a = SymReal(poly._names[v])
                a.sgn = self.var_sign(v)
                parts.append((a, sg * k))
        parts = [(b, k) for b, k in parts if b.const != 1]
        if len(parts) == 1 and parts[0][1] == 1:
            return None
        out = lift(1.0)
        for b, k in parts:
            h, o = divmod(abs(k), 2)
            t = lift(1.0)
            for _ in range(h):
                t = t * b
            if o:
                t = t * self._root_atom(b, 2)
            out = out * t if k > 0 else out / t
        return out

    def _root_atom(self, x, n):
        name = "root%d" % n
        v = self._find(name, x)
        if v is not None:
            return v
        v = self.fresh(name, "+" if x.sgn == "+" else "0+")
        self.define(v, lambda t: t ** (1.0 / n) if n > 2 else t ** 0.5, x)
        p = v.e
        for _ in range(n - 1):
            p = p * v.e
        self.axiom(z3.And(p == x.e, v.e >= 0))
        if x.const is not None:
            # a decimal enclosure helps the solver
            f = Fraction(float(x.const) ** (1.0 / n))
            self.axiom(z3.And(v.e > rv(f * Fraction(999999, 1000000)), v.e < rv(f * Fraction(1000001, 1000000))))
        if x.sgn == "+":
            self.axiom(v.e > 0)
        self.apps[name].append((x, v))
        return v

    @property
    def ln10(self):
        if self._ln10 is None:
            self._ln10 = v = self.fresh("ln10", "+")
            self.define(v, lambda: math.log(10.0))
            self._enclose(v, math.log(10.0))
        return self._ln10

    def strip_ln10(self, x):
        """x / ln(10) if that contains no ln(10)"""
        n = self.ln10.e
        if x.const is not None or n.decl().name() not in z3vars(x.e):
            return lift(0.0) if x.const == 0 else None
        y = SymReal(z3.simplify(z3.substitute(x.e, (n, rv(Fraction(1))))))
        return y if self.same(y * self.ln10, x) else None

    def exp(self, x):
        x = lift(x)
        if x.const == 0:
            return lift(1.0)
        if self.decimal:
            y = self.strip_ln10(x)
            return self.pow10(y if y is not None else x / self.ln10)
        for a, v in self.apps.get("log", []):
            if z3.eq(v.e, x.e):
                return a
        v = self._find("exp", x)
        if v is not None:
            return v
        for a, w in self.apps.get("exp", []):
            if self.same(a, -x):
                return lift(1.0) / w
            if self.same(a * 2, x):
                return w * w
            if self.same(a * -2, x):
                return lift(1.0) / (w * w)
        v = self.fresh("exp", "+")
        for a, w in self.apps.get("exp", []):
            if self.same(a, x * 2):
                self.powers.append((v.e.decl().name(), 2, w.e))
                self.axiom(v.e * v.e == w.e)
            elif self.same(a, x * -2):
                self.powers.append((v.e.decl().name(), 2, (lift(1.0) / w).e))
                self.axiom(v.e * v.e * w.e == 1)
        self.define(v, math.exp, x)
        self.axiom(z3.And(v.e > 0, v.e >= 1 + x.e))
        # tanh(x/2) < x/2:  e^x < (2+x)/(2-x) for 0 < x < 2
        self.axiom(z3.Implies(z3.And(x.e > 0, x.e < 2), z3.And(v.e * (2 - x.e) < 2 + x.e, v.e > 1)))
        self.axiom(z3.Implies(x.e > 0, v.e > 1 + x.e + x.e * x.e / 2))
        self.axiom((x.e == 0) == (v.e == 1))
        self.axiom((x.e > 0) == (v.e > 1))
        self.monotone("exp", x, v)
        for a, w in self.apps.get("exp", []):
            self.axiom(z3.Implies(a.e + x.e == 0, w.e * v.e == 1))
            self.axiom(z3.Implies(a.e == 2 * x.e, w.e == v.e * v.e))
            self.axiom(z3.Implies(x.e == 2 * a.e, v.e == w.e * w.e))
        for a, w in self.apps.get("log", []):
            self.axiom((x.e == w.e) == (v.e == a.e))
        self.apps["exp"].append((x, v))
        if x.const is not None:
            self._enclose(v, float(np.exp(float(x.const))))
        return v

    def _enclose(self, v, approx):
        f = Fraction(approx)
        d = abs(f) * Fraction(1, 10 ** 12)
        self.axiom(z3.And(v.e > rv(f - d), v.e < rv(f + d)))

    def log(self, x):
        x = lift(x)
        if x.const == 1:
            return lift(0.0)
        if x.sgn != "+":
            if not bool(x > 0):
                return float("-inf") if bool(x == 0) else float("nan")
        if self.decimal:
            return self.ln10 if x.const == 10 else self.log10(x) * self.ln10
        for a, v in self.apps.get("exp", []):
            if z3.eq(v.e, x.e):
                return a
        v = self._find("log", x)
        if v is not None:
            return v
        for a, w in self.apps.get("log", []):
            if x.const is None and self.same(a * x, lift(1.0)):
                return -w
            if x.const is None and self.same(a * a, x) and a.sgn == "+":
                return w * 2
        v = self.fresh("log", None if x.const is None else "+" if x.const > 1 else "-")
        self.define(v, math.log, x)
        self.axiom(v.e <= x.e - 1)
        self.axiom(v.e * x.e >= x.e - 1)
        self.axiom((x.e == 1) == (v.e == 0))
        self.axiom((x.e > 1) == (v.e > 0))
        self.monotone("log", x, v)
        for a, w in self.apps.get("log", []):
            self.axiom(z3.Implies(a.e * x.e == 1, w.e + v.e == 0))
        for a, w in self.apps.get("exp", []):
            self.axiom((v.e == a.e) == (x.e == w.e))
        self.apps["log"].append((x, v))
        if x.const is not None:
            self._enclose(v, float(np.log(float(x.const))))
        return v

    def log10(self, x):
        x = lift(x)
        if x.const == 1:
            return lift(0.0)
        if x.sgn != "+":
            if not bool(x > 0):
                return float("-inf") if bool(x == 0) else float("nan")
        for a, v in self.apps.get("pow10", []):
            if z3.eq(v.e, x.e):
                return a
        v = self._find("log10", x)
        if v is not None:
            return v
        if self.decimal:
            parts = self._monomial(x)
            if parts:
                t = lift(0.0)
                for b, k in parts:
                    t = t + self.log10(b) * k
                return t
        v = self.fresh("log10", None if x.const is None else "+" if x.const > 1 else "-")
        self.define(v, math.log10, x)
        self.axiom((x.e == 1) == (v.e == 0))
        self.axiom((x.e > 1) == (v.e > 0))
        self.monotone("log10", x, v)
        for a, w in self.apps.get("pow10", []):
            self.axiom(z3.And((v.e == a.e) == (x.e == w.e), (v.e < a.e) == (x.e < w.e)))
        self.apps["log10"].append((x, v))
        if x.const is not None:
            self._enclose(v, float(np.log10(float(x.const))))
        return v

    def pow10(self, x):
        x = lift(x)
        if x.const is not None and x.const.denominator == 1 and abs(x.const) < 60:
            return lift(Fraction(10) ** int(x.const))
        for a, v in self.apps.get("log10", []):
            if z3.eq(v.e, x.e) or self.decimal and self.same(v, x):
                return a
        v = self._find("pow10", x)
        if v is not None:
            return v
        if self.decimal and x.const is None:
            names = z3vars(x.e)
            for a, w in self.apps.get("log10", []):
                if w.const is None and w.e.decl().name() in names:
                    y = SymReal(z3.simplify(z3.substitute(x.e, (w.e, rv(Fraction(0))))))
                    for m in (1, -1, 2, -2):
                        if self.same(y + w * m, x):
                            return self.pow10(y) * a ** m
        v = self.fresh("pow10", "+")
        self.define(v, lambda t: 10.0 ** t, x)
        self.axiom(v.e > 0)
        self.axiom((x.e == 0) == (v.e == 1))
        self.monotone("pow10", x, v)
        for a, w in self.apps.get("log10", []):
            self.axiom(z3.And((x.e == w.e) == (v.e == a.e), (x.e < w.e) == (v.e < a.e)))
        self.apps["pow10"].append((x, v))
        if x.const is not None:
            self._enclose(v, 10.0 ** float(x.const))
        return v

    def trig(self, x):
        """(cos, sin)"""
        x = lift(x)
        if x.const == 0:
            return lift(1.0), lift(0.0)
        for k, cs in ((1, (-1, 0)), (2, (1, 0)), (Fraction(1, 2), (0, 1)), (-1, (-1, 0)), (-2, (1, 0)), (4, (1, 0))):
            if self.same(x, self.pi * k):
                return lift(cs[0]), lift(cs[1])
        if x.const is not None and abs(float(x.const) - 3.141592653589793) < 1e-12:
            return lift(-1), lift(0)
        lst = self.apps.setdefault("trig", [])
        for a, v in lst:
            if z3.eq(a.e, x.e) or self.same(a, x):
                return v
        quarter = ((0, (1, 0)), (1, (-1, 0)), (-1, (-1, 0)), (2, (1, 0)), (-2, (1, 0)), (Fraction(1, 2), (0, 1)), (Fraction(-1, 2), (0, -1)),
                   (Fraction(3, 2), (0, -1)), (Fraction(-3, 2), (0, 1)))
        for a, (c, s) in list(lst):
            for mult in (1, -1, 2, -2):
                if abs(mult) == 2:
                    cm, sm = c * c * 2 - 1, s * c * 2
                else:
                    cm, sm = c, s
                if mult < 0:
                    sm = -sm
                d = x - a * mult
                for k, (cc, ss) in quarter:
                    if self.same(d, self.pi * k):
                        v = (cm * cc - sm * ss, sm * cc + cm * ss)
                        if mult == 2 and k == 0:
                            lst.append((x, v))
                        return v
        for u, t in self.apps.get("arccos", []):
            if self.same(t, x * 2):
                self.trig(t)
        for u, t in self.apps.get("arccos", []):
            if z3.eq(t.e, x.e):
                s = self.root(lift(1) - u * u, 2)
                lst.append((x, (u, s)))
                return u, s
        c, s = self.fresh("cos"), self.fresh("sin")
        self.define(c, math.cos, x)
        self.define(s, math.sin, x)
        for a, (c2, s2) in lst:
            if self.same(a, x * 2):
                half = lift(Fraction(1, 2))
                self.powers.append((c.e.decl().name(), 2, (half + c2 * half).e))
                self.axiom(z3.And(2 * c.e * c.e == 1 + c2.e, s2.e == 2 * s.e * c.e))
        if x.const is not None:
            for v, f in ((c, math.cos), (s, math.sin)):
                w = Fraction(f(float(x.const)))
                self.axiom(z3.And(v.e >= rv(w - Fraction(1, 10 ** 14)), v.e <= rv(w + Fraction(1, 10 ** 14))))
        self.axiom(c.e * c.e + s.e * s.e == 1)
        self.axiom(z3.And(c.e >= -1, c.e <= 1, s.e >= -1, s.e <= 1))
        pi = self.pi.e
        self.axiom(z3.Implies(z3.And(x.e > 0, x.e < pi), z3.And(s.e > 0, c.e < 1, c.e > -1)))
        self.axiom(z3.Implies(z3.And(x.e > pi, x.e < 2 * pi), s.e < 0))
        self.axiom(z3.Implies(z3.Or(x.e == 0, x.e == 2 * pi), z3.And(s.e == 0, c.e == 1)))
        self.axiom(z3.Implies(x.e == pi, z3.And(s.e == 0, c.e == -1)))
        self.axiom(z3.Implies(x.e == pi / 2, z3.And(s.e == 1, c.e == 0)))
        self.axiom(z3.Implies(z3.And(x.e >= 0, x.e < pi / 2), c.e > 0))
        self.axiom(z3.Implies(z3.And(x.e > pi / 2, x.e <= pi), c.e < 0))
        for a, (c2, s2) in lst:
            self.axiom(z3.Implies(a.e == x.e, z3.And(c.e == c2.e, s.e == s2.e)))
            self.axiom(z3.Implies(a.e + x.e == 0, z3.And(c.e == c2.e, s.e == -s2.e)))
            self.axiom(z3.Implies(a.e == 2 * x.e, z3.And(c2.e == 2 * c.e * c.e - 1, s2.e == 2 * s.e * c.e)))
            self.axiom(z3.Implies(x.e == 2 * a.e, z3.And(c.e == 2 * c2.e * c2.e - 1, s.e == 2 * s2.e * c2.e)))
            self.axiom(
                z3.Implies(
                    z3.And(a.e >= 0, a.e <= pi, x.e >= 0, x.e <= pi),
                    z3.And((a.e < x.e) == (c2.e > c.e), (a.e == x.e) == (c2.e == c.e)),
                )
            )
        for u, t in self.apps.get("arccos", []):
            self.axiom(z3.Implies(x.e == t.e, z3.And(c.e == u.e, s.e >= 0)))
        lst.append((x, (c, s)))
        return c, s

    def arccos(self, u):
        u = lift(u)
        if not bool(SymBool(z3.And(u.e >= -1, u.e <= 1))):
            return float("nan")
        if u.const == 1:
            return lift(0.0)
        if u.const == -1:
            return self.pi
        for a, (c, s) in self.apps.get("trig", []):
            if z3.eq(c.e, u.e) or self.same(c, u):
                if self.proved_eq_bool(z3.And(a.e >= 0, a.e <= self.pi.e)):
                    return a
        v = self._find("arccos", u)
        if v is not None:
            return v
        for a, (c, s) in self.apps.get("trig", []):
            for b, w in ((a * 2, c * c * 2 - 1), (a, c)):
                if self._normal_eq(w, u) and self.proved_eq_bool(z3.And(b.e >= 0, b.e <= self.pi.e)):
                    return b
        t = self.fresh("arccos", "0+")
        self.define(t, math.acos, u)
        pi = self.pi.e
        self.axiom(z3.And(t.e >= 0, t.e <= pi))
        self.axiom((u.e == 1) == (t.e == 0))
        self.axiom((u.e == -1) == (t.e == pi))
        for a, v in self.apps.get("arccos", []):
            self.axiom(z3.And((a.e < u.e) == (v.e > t.e), (a.e == u.e) == (v.e == t.e)))
        for a, (c, s) in self.apps.get("trig", []):
            self.axiom(z3.Implies(z3.And(u.e == c.e, a.e >= 0, a.e <= pi), t.e == a.e))
            self.axiom(z3.Implies(a.e == t.e, z3.And(c.e == u.e, s.e >= 0)))
        self.apps["arccos"].append((u, t))
        return t

    def proved_eq_bool(self, e, timeout=1500):
        old, self.feas_timeout = self.feas_timeout, timeout
        r = self._check(z3.Not(e))
        self.feas_timeout = old
        return r == z3.unsat


def _elementwise_ops():
    """numpy arrays as the other operand"""

    def wrap(name, f, boolean):
        def g(self, o):
            if isinstance(o, np.ndarray) and o.ndim:
                from .shims import asym

                x = o.astype(object) if o.dtype != object else o
                r = np.empty(o.shape, dtype=object)
                for i in np.ndindex(*o.shape):
                    v = f(self, x[i])
                    r[i] = bool(v) if boolean else v
                return r.astype(bool) if boolean else asym(r)
            return f(self, o)

        g.__name__ = name
        return g

    for n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "pow", "rpow"):
        n = "__%s__" % n
        if n in SymReal.__dict__:
            setattr(SymReal, n, wrap(n, SymReal.__dict__[n], False))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        n = "__%s__" % n
        setattr(SymReal, n, wrap(n, SymReal.__dict__[n], True))


_elementwise_ops()


def _pkey(n):
    """canonical key of a polynomial up to a positive factor and the sign; (key, flipped)"""
    items = sorted(n.items())
    lead = items[0][1]
    flip = lead < 0
    return tuple((m, c / lead) for m, c in items), flip


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2 ** 53 else None
    if r is None:
        lo, hi = 0, 1 << (n.bit_length() // k + 1)
        while lo < hi:
            m = (lo + hi) // 2
            if m ** k < n:
                lo = m + 1
            else:
                hi = m
        r = lo
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None
