"""C30: table of Debye temperatures."""
import math
from .common import HarnessTable
from . import tables

HARNESSES = H = HarnessTable()


def keys(c):
    m = c.mod("ries.resonance.debye_model")
    el = c.mod("ries.constituents.element")
    n = 0
    for X in m.room_temperature_T_D:
        c.check(X in tables.SYMBOLS, "%s is a symbol" % X)
        c.check(X in el.natural_elements, "%s is in the element table" % X)
        n += 1
    c.check(n >= 80, "entries of the table (%d)" % n)


H.add(keys, bounds="all entries")


def positive(c):
    m = c.mod("ries.resonance.debye_model")
    T = [v for v in m.room_temperature_T_D.values() if v is not None]
    for v in T:
        c.check(math.isfinite(float(v)), "a number")
    i = c.table_index("entry", len(T))
    v = c.lookup([float(x) for x in T], i)
    c.lt(0.0, v, "positive")
    # between caesium and diamond
    c.le(30.0, v, "not below any element")
    c.le(v, 2300.0, "not above any element")


H.add(positive, bounds="all entries with a value (symbolic index)")


def defined(c):
    """the effective temperature is defined for every tabulated value at every temperature"""
    m = c.mod("ries.resonance.debye_model")
    T = [float(v) for v in m.room_temperature_T_D.values() if v is not None]
    i = c.table_index("entry", len(T))
    TD = c.lookup(T, i)
    t = c.real("T", 0, prefer=(20.0, 600.0))
    v = m.effective_temperature_debye_approximation(t, TD)
    c.finite(v, "finite")
    u = TD / t
    want = 3 * t * (t / TD) ** 3 * c.quad(lambda s: s ** 3 * (1.0 / (c.exp(s) - 1.0) + 0.5), 0.0, u)
    c.eq(v, want, "effective temperature")


H.add(defined, bounds="all entries with a value (symbolic index), all temperatures")


def published(c):
    """elements and values as tabulated at the pinned commit (tables.DEBYE)"""
    m = c.mod("ries.resonance.debye_model")
    t = m.room_temperature_T_D
    for X in sorted(tables.DEBYE):
        c.check(X in t, "%s is tabulated" % X)
    S = [X for X in tables.DEBYE if tables.DEBYE[X] is not None]
    for X in S:
        c.check(t[X] is not None, "%s has a value" % X)
    i = c.table_index("entry", len(S))
    c.table_eq([float(t[X]) for X in S], [tables.DEBYE[X] for X in S], i, "value")


H.add(published, bounds="all entries (symbolic index)")
