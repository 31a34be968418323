"""C07: energy-integrated cross section."""
from .common import HarnessTable, resonance, KINDS

HARNESSES = H = HarnessTable()


def formula(c):
    kind = c.params["kind"]
    n = c.choice("n_widths", [1, 2, 3] if c.thorough else [1, 3])
    exc = c.choice("excited_initial", [False, True])
    fin = c.choice("final", [None] + list(range(n)))
    rec = c.choice("recoil", [None, True]) if kind == "Resonance" else None
    r = resonance(c, kind, n_widths=n, excited_initial=exc, final=fin, recoil=rec, spins=True)
    c.eq(r.res.energy_integrated_cross_section, r.integrated, "energy-integrated cross section")
    c.eq(r.res.resonance_energy, r.Er, "resonance energy")
    c.reached("final" if fin is not None else "total")


for k in KINDS:
    H.add(formula, name="formula_" + k, params={"kind": k}, reach=["final", "total"], witnesses=20,
          bounds="2J in 0..12, 1..3 partial widths > 0, initial state ground or excited, any final state" + (", with and without recoil" if k == "Resonance" else ""))


def independent(c):
    """two resonances between states of the same names, for example of two nuclei"""
    kind = c.params["kind"]
    fin = c.choice("final", [None, 0, 1])
    a = resonance(c, kind, pfx="a_", n_widths=2, final=fin, spins=True)
    b = resonance(c, kind, pfx="b_", n_widths=2, final=fin, spins=True)
    for what, r in (("second", b), ("first", a)):
        c.eq(r.res.energy_integrated_cross_section, r.integrated, "energy-integrated cross section of the %s" % what)
        c.eq(r.res.resonance_energy, r.Er, "resonance energy of the %s" % what)
        c.eq(r.res.get_energy_integrated_cross_section(), r.integrated, "recalculated cross section of the %s" % what)


for k in KINDS:
    H.add(independent, name="independent_" + k, params={"kind": k}, witnesses=6, bounds="two resonances with equal labels, 2J in 0..12, two partial widths > 0, ground states as initial states")
