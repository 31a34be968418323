"""NumPy/math/builtins as seen by the code under test, and the module loader."""
import builtins
import io
import math as _math
import os
import sys
import types
import itertools
import importlib
import unicodedata
import numpy as np
import z3
from . import core, models
from .core import SymReal, SymBool, lift, is_sym, is_num, special, eng, Unsupported, Fraction
from .models import elementwise

# -- arrays ---------------------------------------------------------------------


class SymArray(np.ndarray):
    """object array; `kind` emulates integer / single precision storage"""

    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        self.kind = None

    def astype(self, dtype, *a, **k):
        kd = dkind(dtype)
        if kd == "i":
            return asym(np.frompyfunc(to_int, 1, 1)(self), "i")
        if kd == "f4":
            return asym(np.frompyfunc(lambda v: to_f4(v), 1, 1)(self), "f4")
        if kd == "b":
            return np.array([bool(v != 0) for v in self.ravel()]).reshape(self.shape)
        if kd in ("f8", "O"):
            r = self.copy()
            r.kind = None
            return r
        return np.ndarray.astype(self, dtype, *a, **k)

    @property
    def real(self):
        return models.elementwise(lambda v: v.real, self)

    @property
    def imag(self):
        return models.elementwise(lambda v: v.imag, self)

    def copy(self, order="C"):
        r = np.ndarray.copy(self, order)
        r.kind = self.kind
        return r

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, _index(k))
        if isinstance(r, SymArray):
            r.kind = self.kind
        return r

    def __setitem__(self, k, v):
        if self.kind == "i":
            v = elementwise(to_int, v)
        elif self.kind == "f4":
            v = elementwise(to_f4, v)
        np.ndarray.__setitem__(self, _index(k), v)

    def _inplace(self, name, o):
        if self.kind == "i" and (name == "__itruediv__" or not _integers(o)):
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        return getattr(np.ndarray, name)(self, o)

    def __iadd__(self, o):
        return self._inplace("__iadd__", o)

    def __isub__(self, o):
        return self._inplace("__isub__", o)

    def __imul__(self, o):
        return self._inplace("__imul__", o)

    def __itruediv__(self, o):
        return self._inplace("__itruediv__", o)

    def __pow__(self, o, mod=None):
        if self.kind == "i" and type(o) is int and o < 0:
            raise ValueError("Integers to negative integer powers are not allowed.")
        return np.ndarray.__pow__(self, o)

    def dot(self, o):
        return np.dot(np.asarray(self), np.asarray(o))


def _index(k):
    if type(k) is SymReal:
        return k.__index__()
    if type(k) is tuple:
        return tuple(_index(x) for x in k)
    if type(k) is slice:
        return slice(_index(k.start), _index(k.stop), _index(k.step))
    return k


def _integers(x):
    """whether numpy would store these numbers as integers"""
    if type(x) is SymReal:
        return x.isint
    if isinstance(x, SymArray):
        return x.kind == "i"
    if isinstance(x, np.ndarray):
        return x.dtype.kind in "iu" if x.dtype != object else x.size > 0 and all(_integers(v) for v in x.ravel())
    if isinstance(x, (list, tuple)):
        return len(x) > 0 and all(_integers(v) for v in x)
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def to_int(v):
    if type(v) is SymReal:
        return v.__trunc__()
    if special(v):
        return v
    return int(v)


def to_f4(v):
    if type(v) is SymReal:
        return eng().round32(v)
    return float(np.float32(v))


def asym(a, kind=None):
    r = np.asarray(a, dtype=object).view(SymArray)
    r.kind = kind
    return r


def dkind(dtype):
    if dtype is None:
        return None
    if dtype is Float or dtype is builtins.float:
        return "f8"
    if dtype is Int or dtype is builtins.int:
        return "i"
    try:
        d = np.dtype(getattr(dtype, "numpy_type", dtype))
    except TypeError:
        return "O"
    if d.kind in "iu":
        return "i"
    if d.kind == "f":
        return "f8" if d.itemsize >= 8 else "f4"
    if d.kind == "b":
        return "b"
    return d.kind


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


# -- builtins ---------------------------------------------------------------------


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.float)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)

    def __call__(cls, x=0.0):
        if type(x) is SymReal:
            return SymReal(x.e, x.const, x.sgn)
        if type(x) is SymBool:
            return lift(x)
        if isinstance(x, np.ndarray) and x.size == 1:
            return cls(x.reshape(-1)[0])
        if isinstance(x, str):
            return parse_float(x)
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class Float(metaclass=_FloatMeta):
    fromhex = builtins.float.fromhex
    __name__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, builtins.int)

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)

    def __call__(cls, x=0, *a):
        if type(x) is SymReal:
            return x.__trunc__()
        if type(x) is SymBool:
            return int(bool(x))
        if isinstance(x, np.ndarray) and x.size == 1:
            return cls(x.reshape(-1)[0])
        if isinstance(x, str) and not a:
            return parse_int(x)
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class Int(metaclass=_IntMeta):
    __name__ = "int"


def _np_type(dtype, convert):
    """numpy scalar type usable as a function, in isinstance and as dtype"""

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, dtype)

        def __subclasscheck__(cls, o):
            return issubclass(o, dtype)

        def __call__(cls, x=0, *a, **k):
            return elementwise(convert, x) if has_sym(x) else dtype(x, *a, **k)

    return Meta(dtype.__name__, (), {"dtype": np.dtype(dtype), "numpy_type": dtype})


# symbolic digits: non-ASCII decimal digit characters stand for solver integers
_ND = [chr(c) for c in range(0x100, 0x20000) if unicodedata.category(chr(c)) == "Nd"]


def new_digit(e, name):
    """a character that stands for an arbitrary decimal digit (input `name`)"""
    k = len(e.digit_chars)
    if k >= len(_ND):
        raise Unsupported("too many symbolic digits")
    c = _ND[k]
    v = e.real(name, 0, 9, strict=False, isint=True)
    e.digit_chars[c] = v
    return c


def _digit(c):
    d = eng().digit_chars.get(c)
    if d is not None:
        return d
    if c in "0123456789":
        return lift(builtins.int(c))
    return None


def parse_digits(s):
    v = lift(0)
    for c in s:
        if c == "_":
            raise ValueError("could not convert string: %r" % s)
        d = _digit(c)
        if d is None:
            raise ValueError("could not convert string: %r" % s)
        v = v * 10 + d
    return v


def parse_int(s):
    if core.ENGINE is None or not any(c in eng().digit_chars for c in s):
        return builtins.int(s)
    t = s.strip()
    neg = t.startswith("-")
    t = t.lstrip("+-") if t[:1] in "+-" else t
    if not t:
        raise ValueError("invalid literal for int(): %r" % s)
    v = parse_digits(t)
    return -v if neg else v


def parse_float(s):
    if core.ENGINE is None or not any(c in eng().digit_chars for c in s):
        return builtins.float(s)
    t = s.strip()
    neg = t.startswith("-")
    if t[:1] in ("+", "-"):
        t = t[1:]
    mant, exp = t, None
    for ch in "eE":
        if ch in mant:
            mant, exp = mant.split(ch, 1)
            break
    ip, dot, fp = mant.partition(".")
    if not ip and not fp:
        raise ValueError("could not convert string to float: %r" % s)
    v = parse_digits(ip + fp)
    v = SymReal(v.e, v.const, v.sgn)
    if fp:
        v = v * Fraction(1, 10 ** len(fp))
    if exp is not None:
        eneg = exp.startswith("-")
        if exp[:1] in ("+", "-"):
            exp = exp[1:]
        if not exp:
            raise ValueError("could not convert string to float: %r" % s)
        x = parse_digits(exp)
        k = x.__index__() if x.const is None else int(x.const)
        v = v * (Fraction(10) ** (-k if eneg else k))
    return -v if neg else v


def shim_open(file, mode="r", *a, **k):
    if "b" not in mode and "encoding" not in k and len(a) < 2:
        k["encoding"] = "utf-8"
    if any(c in mode for c in "wax+"):
        raise Unsupported("code under test opens a file for writing")
    return builtins.open(file, mode, *a, **k)


# -- numpy ----------------------------------------------------------------------------


def _unary(name):
    real = getattr(np, name)

    def one(v):
        if type(v) is SymReal:
            return getattr(v, name)()
        if special(v):
            return real(v)
        return getattr(lift(v), name)()

    def f(x, *a, **k):
        k.pop("dtype", None)
        out = k.pop("out", None)
        if isinstance(x, np.ndarray) and x.dtype != object and x.ndim:
            return real(x, *a, **k) if out is None else real(x, *a, out=out, **k)
        if core.ENGINE is None or (core.ENGINE.loading == "concrete" and not has_sym(x)) or (name in ("log", "log10") and core.ENGINE.loading and not has_sym(x) and not (name == "log" and np.ndim(x) == 0 and x in (2, 10))):
            return real(x, *a, **k)
        r = elementwise(one, x)
        if out is not None:
            out[...] = r
            return out
        return r

    f.__name__ = name
    return f


def _arr(x, dtype=None, copy=True):
    k = dkind(dtype)
    if isinstance(x, np.ndarray) and x.dtype != object and not copy and k is None:
        return x
    if not has_sym(x):
        if isinstance(x, (map, filter, range)) or hasattr(x, "__next__"):
            x = list(x)
            if has_sym(x):
                return _arr(x, dtype)
        r = np.array(x, dtype={"f8": builtins.float, "i": builtins.int}.get(k, getattr(dtype, "numpy_type", dtype)))
        return r
    if isinstance(x, np.ndarray):
        src = getattr(x, "kind", None)
        r = asym(np.array(x, dtype=object) if copy else np.asarray(x, dtype=object))
        r.kind = src
    elif is_sym(x):
        r = np.empty((), dtype=object)
        r[()] = x
        r = asym(r, "i" if _integers(x) else None)
    else:
        r = asym(_build(x))
        if _integers(r.view(np.ndarray)):
            r.kind = "i"
    if k == "i" or k == "f4":
        return r.astype(dtype)
    if k == "f8":
        r.kind = None
    return r


def _build(x):
    """object array from nested sequences whose leaves are scalars"""
    def shape(v):
        if isinstance(v, (list, tuple)):
            return (len(v),) + (shape(v[0]) if len(v) else ())
        if isinstance(v, np.ndarray):
            return v.shape
        return ()

    sh = shape(x)
    out = np.empty(sh, dtype=object)

    def fill(v, idx):
        if isinstance(v, (list, tuple)) or (isinstance(v, np.ndarray) and v.ndim):
            if len(idx) >= len(sh) or len(v) != sh[len(idx)]:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            for i, w in enumerate(v):
                fill(w, idx + (i,))
        else:
            if len(idx) != len(sh):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            out[idx] = v.item() if isinstance(v, np.ndarray) else v

    fill(x, ())
    return out


def np_array(x, dtype=None, *a, copy=True, **k):
    return _arr(x, dtype, True)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray) and (dtype is None or (x.dtype == object and dkind(dtype) == "f8" and getattr(x, "kind", None) is None)):
        return x
    return _arr(x, dtype, True)


def _full(shape, value, dtype):
    k = dkind(dtype)
    if k == "b":
        return np.full(shape, value, dtype=bool)
    if isinstance(shape, tuple):
        shape = tuple(_index(s) for s in shape)
    else:
        shape = _index(shape)
    r = np.empty(shape, dtype=object)
    r[...] = value
    return asym(r, k if k in ("i", "f4") else None)


def np_zeros(shape, dtype=None, *a, **k):
    return _full(shape, 0 if dkind(dtype) == "i" else 0.0, dtype)


def np_ones(shape, dtype=None, *a, **k):
    return _full(shape, 1 if dkind(dtype) == "i" else 1.0, dtype)


def np_empty(shape, dtype=None, *a, **k):
    return _full(shape, 0.0, dtype)


def np_full(shape, fill_value, dtype=None, *a, **k):
    if dtype is None and type(fill_value) in (int, np.int64):
        dtype = builtins.int
    return _full(shape, fill_value, dtype)


def _like_dtype(x, dtype):
    if dtype is not None:
        return dtype
    if isinstance(x, SymArray):
        return {"i": builtins.int, "f4": np.float32}.get(x.kind)
    if isinstance(x, np.ndarray) and x.dtype != object:
        return x.dtype
    if _integers(x):
        return builtins.int
    if isinstance(x, (list, tuple)) and x and not has_sym(x):
        return np.asarray(x).dtype
    return None


def np_zeros_like(x, dtype=None, *a, **k):
    return np_zeros(np.shape(x), _like_dtype(x, dtype))


def np_ones_like(x, dtype=None, *a, **k):
    return np_ones(np.shape(x), _like_dtype(x, dtype))


def np_empty_like(x, dtype=None, *a, **k):
    return np_zeros(np.shape(x), _like_dtype(x, dtype))


def np_full_like(x, fill_value, dtype=None, *a, **k):
    return _full(np.shape(x), fill_value, _like_dtype(x, dtype))


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = _index(num) if type(num) is SymReal else num
    if isinstance(num, builtins.float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    num = num.__index__()
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    if any(isinstance(v, np.ndarray) and v.ndim for v in (start, stop)):
        raise Unsupported("linspace with array limits")
    if special(start) or special(stop):
        return np.linspace(builtins.float(start), builtins.float(stop), num, endpoint)
    a, b = lift(start), lift(stop)
    div = num - 1 if endpoint else num
    r = np.empty(num, dtype=object)
    step = (b - a) / div if div > 0 else builtins.float("nan")
    for i in range(num):
        r[i] = a if i == 0 else b if (endpoint and i == num - 1) else a + (b - a) * Fraction(i, div)
    r = asym(r)
    if dkind(dtype) == "i":
        r = r.astype(builtins.int)
    return (r, step) if retstep else r


def np_geomspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    la, lb = lift(start).log10(), lift(stop).log10()
    return elementwise(lambda v: eng().pow10(v), np_linspace(la, lb, num, endpoint))


def np_logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None, axis=0):
    if base != 10:
        raise Unsupported("logspace base")
    return elementwise(lambda v: eng().pow10(v), np_linspace(start, stop, num, endpoint))


def np_arange(*a, **k):
    if any(is_sym(v) for v in a):
        start, stop, step = (lift(0), a[0], lift(1)) if len(a) == 1 else (a[0], a[1], lift(1)) if len(a) == 2 else a[:3]
        if any(special(v) for v in (start, stop, step)):
            raise Unsupported("arange with special values")
        start, stop, step = lift(start), lift(stop), lift(step)
        if step == 0:
            raise ZeroDivisionError("division by zero")
        up, out = bool(step > 0), []
        while bool(start + step * len(out) < stop) if up else bool(start + step * len(out) > stop):
            out.append(start + step * len(out))
            if len(out) > 40:
                raise Unsupported("arange of more than 40 points")
        return _arr(out)
    return np.arange(*a, **k)


def _bool_arr(f, x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.ndim:
        return np.array([f(v) for v in x.ravel()], dtype=bool).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return np.array([_bool_arr(f, v) for v in x], dtype=bool)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x.item()
    return f(x)


def np_isinf(x, *a, **k):
    return _bool_arr(lambda v: False if is_sym(v) else bool(np.isinf(v)), x)


def np_isnan(x, *a, **k):
    return _bool_arr(lambda v: False if is_sym(v) else bool(np.isnan(v)), x)


def np_isfinite(x, *a, **k):
    return _bool_arr(lambda v: True if is_sym(v) else bool(np.isfinite(v)), x)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def one(v):
        if special(v):
            return np.nan_to_num(v, nan=nan, posinf=posinf, neginf=neginf)
        return v

    return elementwise(one, x)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def one(x, y):
        if special(x) or special(y):
            return bool(np.isclose(x if special(x) else 0.0, y if special(y) else 0.0, equal_nan=equal_nan))
        return bool(abs(lift(x) - y) <= lift(atol) + lift(rtol) * abs(lift(y)))

    r = elementwise(one, a, b)
    return r.astype(bool) if isinstance(r, np.ndarray) else r


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(np_isclose(a, b, rtol, atol, equal_nan)))


def _sortlist(v):
    out = []
    for x in v:
        j = len(out)
        while j > 0 and bool(x < out[j - 1]):
            j -= 1
        out.insert(j, x)
    return out


def np_unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not has_sym(x):
        return np.unique(x, return_index, return_inverse, return_counts, axis)
    if return_index or return_inverse or return_counts:
        raise Unsupported("np.unique with extra outputs")
    flat = list(np.asarray(x, dtype=object).ravel())
    out = []
    for v in _sortlist(flat):
        if not out or not bool(out[-1] == v):
            out.append(v)
    r = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        r[i] = v
    return asym(r)


def np_sort(x, axis=-1, **k):
    if not has_sym(x) or np.ndim(x) != 1:
        return np.sort(x, axis)
    out = _sortlist(list(np.asarray(x, dtype=object)))
    r = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        r[i] = v
    return asym(r)


def np_argsort(x, axis=-1, **k):
    if not has_sym(x):
        return np.argsort(x, axis)
    x = list(x)
    idx = []
    for i in range(len(x)):
        j = len(idx)
        while j > 0 and bool(x[i] < x[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return np.array(idx)


def np_searchsorted(a, v, side="left", sorter=None):
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(a, v, side, sorter)
    a = list(a)

    def one(w):
        i = 0
        while i < len(a) and bool(a[i] < w if side == "left" else a[i] <= w):
            i += 1
        return i

    r = elementwise(one, v)
    return r.astype(builtins.int) if isinstance(r, np.ndarray) else r


def np_where(cond, *a):
    if not a:
        return np.where(np.asarray(cond, dtype=bool))
    x, y = a

    def one(c, u, v):
        return u if bool(c) else v

    if type(cond) is SymBool and not any(isinstance(v, (np.ndarray, list, tuple)) for v in (x, y)):
        return x if bool(cond) else y
    return elementwise(one, cond, x, y)


def _minmax(gt):
    def one(a, b):
        if special(a) and a != a:
            return a
        if special(b) and b != b:
            return b
        return (a if bool(a >= b) else b) if gt else (a if bool(a <= b) else b)

    def f(a, b, *r, **k):
        return elementwise(one, a, b)

    return f


def np_clip(a, a_min=None, a_max=None, *r, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    mx, mn = _minmax(True), _minmax(False)
    if a_min is not None:
        a = mx(a, a_min)
    if a_max is not None:
        a = mn(a, a_max)
    return a


def np_power(a, b, *r, **k):
    if core.ENGINE is None or (core.ENGINE.loading == "concrete" and not has_sym(a) and not has_sym(b)):
        return np.power(a, b, *r, **k)
    return elementwise(lambda x, y: lift(x) ** y if not special(x) else x ** y, a, b)


class vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        self.pyfunc = pyfunc
        self.otypes = otypes
        self.__doc__ = doc or getattr(pyfunc, "__doc__", None)

    def __call__(self, *args, **kw):
        args = list(args)
        names = list(kw)
        vals = [kw[n] for n in names]

        def f(*t):
            return self.pyfunc(*t[: len(args)], **dict(zip(names, t[len(args):])))

        r = elementwise(f, *args, *vals)
        ot = self.otypes
        kind = None
        if ot is not None:
            kind = dkind(ot[0]) if not isinstance(ot, str) else dkind(ot[0])
        elif isinstance(r, np.ndarray) and r.size:
            first = r.ravel()[0]
            if isinstance(first, builtins.int) and not isinstance(first, builtins.bool):
                kind = "i"
        if kind in ("i", "f4") and isinstance(r, np.ndarray):
            r = r.astype(builtins.int if kind == "i" else np.float32)
        return r


def np_mean(a, axis=None, **k):
    a = _arr(a)
    s = np.sum(a, axis=axis)
    return s / (a.size if axis is None else a.shape[axis])


def np_loadtxt(fname, dtype=None, comments="#", delimiter=None, converters=None, skiprows=0, usecols=None, unpack=False, ndmin=0, skip_header=0, max_rows=None, **k):
    rows = []
    f = fname if hasattr(fname, "read") or isinstance(fname, (list, tuple)) or hasattr(fname, "__next__") else shim_open(fname)
    for i, line in enumerate(f):
        if i < skiprows + skip_header:
            continue
        if max_rows is not None and len(rows) >= max_rows:
            break
        line = line.split(comments)[0] if comments else line
        if isinstance(delimiter, (builtins.int, list, tuple)):
            # columns of fixed widths
            line, parts, at = line.rstrip("\n"), [], 0
            widths = delimiter if not isinstance(delimiter, builtins.int) else [delimiter] * (len(line) // delimiter)
            for w in widths:
                parts.append(line[at:at + w].strip())
                at += w
        else:
            parts = line.split(delimiter)
        if not parts:
            continue
        if usecols is not None:
            parts = [parts[c] for c in (usecols if hasattr(usecols, "__iter__") else [usecols])]
        rows.append([parse_float(p) for p in parts])
    r = _arr(rows)
    if ndmin < 2 and 1 in r.shape:
        r = r.reshape(-1)
    return r.T if unpack else r


def np_piecewise(x, condlist, funclist, *args, **k):
    scalar = np.ndim(x) == 0
    xs = _arr([x] if scalar else x)
    conds = [_arr([c] if scalar else c) for c in condlist]
    out = np_zeros(xs.shape)
    for i in range(xs.size):
        chosen = funclist[len(conds)] if len(funclist) > len(conds) else 0.0
        for j, c in enumerate(conds):
            if bool(c.flat[i]):
                chosen = funclist[j]
        out.flat[i] = chosen(xs.flat[i], *args, **k) if callable(chosen) else chosen
    return out[0] if scalar else out


def np_diff(a, n=1, axis=-1, **k):
    a = _arr(a)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return a


def np_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = list(y)
    if x is None:
        return sum((y[i] + y[i + 1]) * dx for i in range(len(y) - 1)) * Fraction(1, 2)
    x = list(x)
    s = lift(0.0)
    for i in range(len(y) - 1):
        s = s + (y[i] + y[i + 1]) * (x[i + 1] - x[i]) * Fraction(1, 2)
    return s


def np_hypot(a, b, *args, **k):
    return elementwise(lambda x, y: (lift(x) * x + lift(y) * y).sqrt() if is_sym(x) or is_sym(y) else np.hypot(x, y), a, b)


def np_heaviside(a, b, *args, **k):
    return elementwise(lambda x, y: (1.0 if x > 0 else 0.0) if bool(x != 0) else y, a, b)


def np_select(condlist, choicelist, default=0):
    r = default
    for cond, v in list(zip(condlist, choicelist))[::-1]:
        r = np_where(cond, v, r)
    return r


class Linalg:
    def __getattr__(self, k):
        return getattr(np.linalg, k)

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        x = _arr(x)
        if ord not in (None, 2) or axis is not None or x.ndim != 1:
            return np.linalg.norm(x, ord, axis, keepdims)
        s = lift(0.0)
        for v in x:
            s = s + lift(v) * v
        return s.sqrt()


class NumpyProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "numpy")
        d = self.__dict__
        for n in ("sqrt cbrt exp expm1 log log10 log2 log1p cos sin tan sinh cosh tanh arccos arcsin arctan square reciprocal floor ceil trunc rint "
                  "fabs absolute sign deg2rad radians").split():
            d[n] = _unary(n)
        d["acos"] = d["arccos"]
        d["abs"] = d["absolute"]
        d.update(
            array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
            zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full,
            zeros_like=np_zeros_like, ones_like=np_ones_like, empty_like=np_empty_like, full_like=np_full_like,
            linspace=np_linspace, geomspace=np_geomspace, logspace=np_logspace, arange=np_arange,
            isinf=np_isinf, isnan=np_isnan, isfinite=np_isfinite, isclose=np_isclose, allclose=np_allclose,
            isposinf=lambda x, *a, **k: _bool_arr(lambda v: False if is_sym(v) else bool(np.isposinf(v)), x),
            isneginf=lambda x, *a, **k: _bool_arr(lambda v: False if is_sym(v) else bool(np.isneginf(v)), x),
            hypot=np_hypot, heaviside=np_heaviside, select=np_select, piecewise=np_piecewise, fromiter=lambda it, dtype=None, count=-1, **k: np_array(list(it), dtype=dtype), linalg=Linalg(), exp2=lambda x: np_power(2.0, x),
            nansum=lambda a, *r, **k: np.sum(_arr(a), *r, **k),
            nan_to_num=np_nan_to_num, unique=np_unique, sort=np_sort, argsort=np_argsort,
            searchsorted=np_searchsorted, where=np_where, maximum=_minmax(True), minimum=_minmax(False),
            fmax=_minmax(True), fmin=_minmax(False),
            clip=np_clip, power=np_power, float_power=np_power, vectorize=vectorize, interp=models.np_interp,
            mean=np_mean, average=lambda a, axis=None, weights=None, **k: np_mean(a, axis) if weights is None else
            np.sum(_arr(a) * _arr(weights)) / np.sum(_arr(weights)),
            loadtxt=np_loadtxt, genfromtxt=np_loadtxt, diff=np_diff, trapezoid=np_trapezoid, trapz=np_trapezoid,
            float64=Float, double=Float, float32=_np_type(np.float32, to_f4), single=_np_type(np.float32, to_f4),
            int64=_np_type(np.int64, to_int), int32=_np_type(np.int32, to_int), int_=_np_type(np.int64, to_int), intp=_np_type(np.int64, to_int),
            errstate=np.errstate, finfo=lambda t=None: np.finfo(builtins.float if t in (None, Float) else getattr(t, "numpy_type", t)),
            real=lambda x: x.real if hasattr(x, "real") else _arr(x).real, imag=lambda x: x.imag if hasattr(x, "imag") else _arr(x).imag,
            atleast_1d=lambda x: x if np.ndim(x) else _arr([x]),
        )

    def __getattr__(self, k):
        if k == "pi":
            return eng().pi if core.ENGINE is not None else np.pi
        return getattr(np, k)


class MathProxy(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, "math")
        d = self.__dict__

        def un(n, meth=None):
            real = getattr(_math, n)

            def f(x):
                if type(x) is SymReal or (is_num(x) and not special(x) and core.ENGINE is not None):
                    r = getattr(lift(x), meth or n)()
                    if isinstance(r, builtins.float) and not is_sym(r) and r != r or (n.startswith("log") and special(r)):
                        raise ValueError("math domain error")
                    return r
                return real(x)

            d[n] = f

        for n in ("sqrt", "exp", "expm1", "log1p", "log10", "log2", "cos", "sin", "tan", "sinh", "cosh", "tanh"):
            un(n)
        un("acos", "arccos")
        un("atan", "arctan")
        un("asin", "arcsin")

        def log(x, base=None):
            if not is_sym(x) and special(x):
                return _math.log(x)
            r = eng().log(lift(x))
            if special(r):
                raise ValueError("math domain error")
            return r if base is None else r / eng().log(lift(base))

        def fabs(x):
            return abs(x)

        d.update(
            log=log, fabs=fabs, floor=lambda x: x.__floor__(), ceil=lambda x: x.__ceil__(), trunc=lambda x: x.__trunc__(),
            isinf=np_isinf, isnan=np_isnan, isfinite=np_isfinite,
            fsum=lambda it: sum(it, lift(0.0)), hypot=lambda x, y: (lift(x) * x + lift(y) * y).sqrt(),
            prod=lambda it, start=1: __import__("functools").reduce(lambda a, b: a * b, it, start),
            pow=lambda x, y: lift(x) ** y, radians=lambda x: lift(x) * eng().pi / 180,
            isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(
                abs(lift(a) - b) <= _minmax(True)(lift(rel_tol) * _minmax(True)(abs(lift(a)), abs(lift(b))), abs_tol)
            ),
        )

    def __getattr__(self, k):
        if k == "pi":
            return eng().pi if core.ENGINE is not None else _math.pi
        if k == "tau":
            return eng().pi * 2
        return getattr(_math, k)


NP = NumpyProxy()
MATH = MathProxy()


# -- loader ------------------------------------------------------------------------------


class Loader:
    """executes the modules of the package from their current source"""

    _code = {}

    def __init__(self, repo, package="ries"):
        self.repo = repo
        self.package = package
        self.modules = {}
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = Float
        b["int"] = Int
        b["open"] = shim_open
        b["round"] = lambda x, n=None: x.__round__(n) if type(x) is SymReal else (
            builtins.round(x) if n is None else builtins.round(x, n))
        b["str"] = builtins.str
        self.builtins = b

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        if os.path.exists(path):
            code = Loader._code.get(path)
            if code is None:
                with builtins.open(path, encoding="utf-8") as f:
                    code = compile(f.read(), path, "exec", dont_inherit=True)
                Loader._code[path] = code
            if core.ENGINE is not None:
                core.ENGINE.loading += 1
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                if core.ENGINE is not None:
                    core.ENGINE.loading -= 1
        if parent:
            setattr(self.modules[parent], leaf, m)
        return m

    def _resolve(self, name, fromlist, get):
        if not fromlist:
            top = name.split(".")[0]
            get(name)
            return get(top)
        return get(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == self.package:
            m = self._resolve(name, fromlist, self.load)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f) and self._path(name + "." + f)[0]:
                    self.load(name + "." + f)
            return m
        if top == "numpy":
            if name == "numpy":
                return NP
            real = importlib.import_module(name)
            return real if fromlist else NP
        if top == "math":
            return MATH
        if top == "scipy":
            if not fromlist:
                models.scipy_module(name)
                return models.scipy_module("scipy")
            return models.scipy_module(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)
