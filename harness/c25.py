"""C25: effective mass of elements and the shipped element table."""
import itertools
from .common import HarnessTable
from . import tables

HARNESSES = H = HarnessTable()


def mass(c):
    el = c.mod("ries.constituents.element")
    iso = c.mod("ries.constituents.isotope")
    n = c.params["n"]
    names = ["%dXx" % (10 + i) for i in range(n)]
    m = [c.real("m%d" % i, 0, prefer=(1.0, 240.0)) for i in range(n)]
    w = [c.real("w%d" % i, 0, 1, strict=False, prefer=(0.0, 1.0)) for i in range(n)]
    order = c.choice("order", list(itertools.permutations(range(n))))
    other = c.choice("other", ["same", "reversed"])
    isotopes = {names[i]: iso.Isotope(names[i], m[i]) for i in order}
    abundances = {names[i]: w[i] for i in (order if other == "same" else reversed(order))}
    want = 0.0
    for i in range(n):
        want = want + m[i] * w[i]
    rho = c.pos("rho")
    e = el.Element(7, "Xx", isotopes, abundances, rho)
    c.eq(e.amu, want, "effective mass")
    c.eq(el.Element.amu_from_isotopic_composition(abundances, isotopes), want, "effective mass from the composition")
    c.check(e.Z == 7 and e.X == "Xx", "proton number and symbol")
    c.eq(e.density, rho, "density")
    c.check(list(e.isotopes) == [names[i] for i in order] and sorted(e.abundances) == sorted(names), "isotopes of the element")
    for i in range(n):
        c.eq(e.abundances[names[i]], w[i], "abundance")
        c.eq(e.isotopes[names[i]].amu, m[i], "mass of an isotope")
        c.eq(abundances[names[i]], w[i], "abundance of the caller")
    # between the lightest and the heaviest for complete compositions
    s = 0.0
    for v in w:
        s = s + v
    lo = hi = m[0]
    for v in m[1:]:
        lo = v if v < lo else lo
        hi = v if v > hi else hi
    c.le(lo * s, e.amu, "not below the lightest isotope")
    c.le(e.amu, hi * s, "not above the heaviest isotope")


H.add(mass, bounds="one isotope", params={"n": 1}, name="mass_one")
H.add(mass, bounds="two isotopes, all orders", params={"n": 2}, name="mass_two")
H.add(mass, bounds="three isotopes, all orders", params={"n": 3}, max_paths=400)
H.add(mass, bounds="four isotopes, all orders", params={"n": 4}, name="mass_four", thorough_only=True, max_paths=4000, budget=800)


def independent(c):
    """two elements"""
    el = c.mod("ries.constituents.element")
    iso = c.mod("ries.constituents.isotope")
    m = [c.real("m%d" % i, 0, prefer=(1.0, 240.0)) for i in range(3)]
    w = [c.real("w%d" % i, 0, 1, strict=False, prefer=(0.0, 1.0)) for i in range(3)]
    a = el.Element(1, "A", {"1A": iso.Isotope("1A", m[0])}, {"1A": w[0]})
    b = el.Element(2, "B", {"2B": iso.Isotope("2B", m[1]), "3B": iso.Isotope("3B", m[2])}, {"2B": w[1], "3B": w[2]}, 2.5)
    c.eq(a.amu, m[0] * w[0], "first element")
    c.eq(b.amu, m[1] * w[1] + m[2] * w[2], "second element")
    c.check(a.density is None and b.density == 2.5, "densities")
    c.check((a.Z, a.X, b.Z, b.X) == (1, "A", 2, "B"), "identities")
    c.check(list(a.isotopes) == ["1A"] and list(b.isotopes) == ["2B", "3B"], "isotopes")


H.add(independent, bounds="two elements")


def shipped(c):
    """the element table against an independent reading of the compilation"""
    el = c.mod("ries.constituents.element")
    iso, weight = tables.isotopes()
    dens = tables.densities()
    syms = {}
    for Z, X, *_ in iso:
        syms.setdefault(Z, X)
    for Z in range(1, 119):
        c.check(syms[Z] == tables.SYMBOLS[Z - 1], "symbol of Z=%d in the compilation" % Z)
    c.check({Z: el.X[Z] for Z in range(1, 119)} == syms, "symbols")
    c.check(sorted(el.natural_elements) == sorted(syms.values()), "one element per proton number")
    zs, amu, want, rho, want_rho = [], [], [], [], []
    for Z in range(1, 119):
        e = el.natural_elements[syms[Z]]
        c.check(e.X == syms[Z] and e.Z == Z, "Z=%d: symbol and proton number belong together" % Z)
        mine = {"%d%s" % (A, X): (m, w) for z, X, A, m, w in iso if z == Z}
        c.check(sorted(e.isotopes) == sorted(mine) and sorted(e.abundances) == sorted(mine), "Z=%d: isotopes" % Z)
        zs.append(Z)
        amu.append(float(e.amu))
        want.append(sum(m * w for m, w in mine.values()))
        d = dens.get(syms[Z])
        c.check((e.density is None) == (d is None), "Z=%d: density present" % Z)
        rho.append(float(e.density) if e.density is not None else -1.0)
        want_rho.append(d if d is not None else -1.0)
    i = c.table_index("element", 118)
    c.table_eq(amu, want, i, "effective mass")
    c.table_eq(rho, want_rho, i, "density")


H.add(shipped, bounds="all 118 elements (symbolic index)")


def isotope_table(c):
    el = c.mod("ries.constituents.element")
    iso, weight = tables.isotopes()
    m, mw, w, ww = [], [], [], []
    for Z, X, A, mass_, ab in iso:
        e = el.natural_elements[el.X[Z]]
        k = "%d%s" % (A, X)
        c.check(k in e.isotopes and e.isotopes[k].AX == k, "isotope %s" % k)
        m.append(float(e.isotopes[k].amu))
        mw.append(mass_)
        w.append(float(e.abundances[k]))
        ww.append(ab)
    i = c.table_index("isotope", len(iso))
    c.table_eq(m, mw, i, "mass")
    c.table_eq(w, ww, i, "abundance")
    # sane on its own
    near = [round(v) for v in m]
    c.table_eq(near, [A for _, _, A, _, _ in iso], i, "mass near the mass number")


H.add(isotope_table, bounds="all isotopes of the compilation (symbolic index)")


def natural(c):
    """complete compositions and masses near the standard atomic weight"""
    el = c.mod("ries.constituents.element")
    iso, weight = tables.isotopes()
    total, amu, low, high, lightest, heaviest = [], [], [], [], [], []
    for Z in range(1, 119):
        e = el.natural_elements[el.X[Z]]
        s = sum(float(v) for v in e.abundances.values())
        if s == 0:
            c.check(float(e.amu) == 0, "no effective mass without natural isotopes")
            continue
        ms = [float(e.isotopes[k].amu) for k in e.isotopes if float(e.abundances[k]) > 0]
        total.append(s)
        amu.append(float(e.amu))
        lo, hi = weight[Z]
        low.append(lo)
        high.append(hi)
        lightest.append(min(ms))
        heaviest.append(max(ms))
    c.check(len(total) == 84, "number of natural elements (%d)" % len(total))
    i = c.table_index("element", len(total))
    c.table_eq(total, [1.0] * len(total), i, "abundances sum to one", rtol=1e-6)
    c.le(c.lookup(low, i) * (1 - 1e-3), c.lookup(amu, i), "not below the standard atomic weight")
    c.le(c.lookup(amu, i), c.lookup(high, i) * (1 + 1e-3), "not above the standard atomic weight")
    c.le(c.lookup(lightest, i) * (1 - 1e-6), c.lookup(amu, i), "not below the lightest isotope")
    c.le(c.lookup(amu, i), c.lookup(heaviest, i) * (1 + 1e-6), "not above the heaviest isotope")


H.add(natural, bounds="all elements with natural isotopes (symbolic index)")
