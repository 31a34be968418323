"""C22: attenuation per atom."""
import math
from .common import HarnessTable
from . import tables

HARNESSES = H = HarnessTable()


def masses():
    iso, _ = tables.isotopes()
    out = {}
    for Z, X, A, m, w in iso:
        out[Z] = out.get(Z, 0.0) + m * w
    return out


def factor():
    from scipy.constants import physical_constants

    u = physical_constants["atomic mass constant"][0] * 1e3
    return {Z: m * u * 1e26 for Z, m in masses().items()}


def keys(c):
    x = c.mod("ries.nonresonant.xrmac")
    want = sorted(tables.SYMBOLS[:92])
    c.check(sorted(x.xrmac_cm2_per_g) == want, "one entry per element in cm2/g")
    c.check(sorted(x.xrmac_fm2_per_atom) == want, "one entry per element in fm2 per atom")


H.add(keys, bounds="all elements from hydrogen to uranium")


def flat(c, tab):
    """rows of all elements in the order of the proton number, as plain numbers"""
    rows, counts = [], []
    for X in tables.SYMBOLS[:92]:
        d = tab[X].data
        counts.append(len(d))
        for r in d:
            rows.append([float(v) for v in r])
    return rows, counts


def rows(c):
    x = c.mod("ries.nonresonant.xrmac")
    want, counts, scale = [], [], []
    f = factor()
    for Z in range(1, 93):
        t = tables.attenuation(Z)
        want += t
        counts.append(len(t))
        scale += [f[Z]] * len(t)
    cm, n1 = flat(c, x.xrmac_cm2_per_g)
    fm, n2 = flat(c, x.xrmac_fm2_per_atom)
    c.check(n1 == counts, "all lines of every file in cm2/g")
    c.check(n2 == counts, "all lines of every file in fm2 per atom")
    i = c.table_index("row", len(want))
    for k, name in ((0, "energy"), (1, "attenuation"), (2, "energy absorption")):
        c.table_eq([r[k] for r in cm], [r[k] for r in want], i, name + " in cm2/g")
        c.table_eq([r[k] for r in fm], [r[k] * s if k else r[k] for r, s in zip(want, scale)], i, name + " per atom", rtol=1e-6)


H.add(rows, bounds="all rows of all 92 tables (symbolic row)", rtol=1e-6)


def values(c):
    """evaluation at tabulated energies, between and outside"""
    x = c.mod("ries.nonresonant.xrmac")
    f = factor()
    E = [0.0005, 0.001, 0.0123, 0.1, 1.5, 17.3, 20.0, 100.0]
    cm, fm = [], []
    for Z in range(1, 93):
        X = tables.SYMBOLS[Z - 1]
        if X in tables.NO_ABUNDANCE:
            continue  # see no_natural_isotopes
        with c.concretely():
            for e in E:
                cm.append(float(x.xrmac_cm2_per_g[X](e)) * f[Z])
                fm.append(float(x.xrmac_fm2_per_atom[X](e)))
    c.check(all(math.isfinite(v) and v > 0 for v in cm + fm), "finite and positive")
    i = c.table_index("entry", len(cm))
    c.table_eq(fm, cm, i, "per atom against per mass", rtol=1e-6)


H.add(values, bounds="84 elements with natural isotopes at eight energies (symbolic entry)", rtol=1e-6)


def any_energy(c):
    """one table per element with arbitrary rows: the conversion of that element, at every energy"""
    c.decimal_logarithms()
    x = c.mod("ries.nonresonant.xrmac")
    f = factor()
    Z = c.choice("Z", [1, 13, 26, 50, 82, 92] if not c.thorough else [z for z in range(1, 93) if tables.SYMBOLS[z - 1] not in tables.NO_ABUNDANCE])
    X = tables.SYMBOLS[Z - 1]
    E = [c.real("E%d" % i, 0, prefer=(0.01 * 4 ** i, 0.02 * 4 ** i)) for i in range(3)]
    c.assume(c.all([E[0] < E[1], E[1] < E[2]]))
    A = [c.pos("A%d" % i) for i in range(3)]
    data = [[E[i], A[i]] for i in range(3)]
    k = x.XRMAC(c.array2(data), xrmac_conversion=x.xrmac_fm2_per_atom[X].xrmac_conversion)
    e = c.real("e", 0, prefer=(0.02, 0.03))
    c.assume(c.all([E[0] < e, e < E[1]]))
    plain = x.XRMAC(c.array2(data))
    ratio = k(e) / plain(e)
    c.eq(ratio, k.data[0][1] / A[0], "same factor at every energy")


H.add(any_energy, bounds="arbitrary tables of three rows scaled by the conversion of an element", rtol=1e-6)


def no_natural_isotopes(c):
    """elements without natural isotopes have the effective mass zero"""
    x = c.mod("ries.nonresonant.xrmac")
    X = c.choice("X", tables.NO_ABUNDANCE)
    with c.concretely():
        v = float(x.xrmac_fm2_per_atom[X](0.0123))
        w = float(x.xrmac_cm2_per_g[X](0.0123))
    c.check(math.isfinite(w) and w > 0, "positive per mass")
    c.check(v == 0, "zero per atom")


H.add(no_natural_isotopes, bounds="eight elements without natural isotopes")
