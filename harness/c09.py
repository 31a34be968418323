"""C09: widths, branching ratios and the sum over final states."""
from .common import HarnessTable, resonance, KINDS

HARNESSES = H = HarnessTable()


def channels(c):
    kind = c.params["kind"]
    n = c.choice("n", [1, 2, 3, 4] if c.thorough else [1, 2, 3])
    r = resonance(c, kind, n_widths=n, excited_initial=c.choice("excited", [False, True]), spins=kind == "Resonance")
    c.eq(r.intermediate.width, r.width, "total width")
    labels = list(r.intermediate.partial_widths)
    c.check(len(labels) == n, "number of partial widths")
    for i, l in enumerate(labels):
        c.eq(r.intermediate.partial_widths[l], r.gammas[i], "partial width %s" % l)
    x = c.real("x", prefer=(-1.0, 1.0))
    if kind == "Resonance":
        c.assume(c.all([x != -0.5, x != 0.5]))
    E = r.Er + x
    s = 0.0
    si = 0.0
    for i in range(n):
        f = r.make(r.finals[i])
        c.eq(f.final_state_branching_ratio, r.gammas[i] / r.width, "branching ratio %d" % i)
        s = s + f(E)
        si = si + f.energy_integrated_cross_section
        c.eq(f(E), r.integrated * r.gammas[i] / r.width * r.spec.pdf(E), "channel %d" % i)
    c.eq(s, r.make(None)(E), "sum over final states", atol=1e-300)
    c.eq(si, r.make(None).energy_integrated_cross_section, "sum of integrated cross sections")
    c.reached("n%d" % n)


for k in KINDS:
    H.add(channels, name="channels_" + k, params={"kind": k}, reach=["n1", "n2", "n3"], witnesses=8, rtol=1e-6,
          bounds="1 to 3 (thorough: 4) partial widths, all line shapes")


def ground(c):
    """a ground state has no excitation energy"""
    st = c.mod("ries.constituents.state")
    J = c.int_("two_J", 0, 20)
    g = st.GroundState("0^+_1", J, 1)
    c.eq(g.excitation_energy, 0.0, "excitation energy")
    c.eq(g.two_J, J, "spin")


H.add(ground, bounds="spins up to 10")


def independent(c):
    """two resonances between states of the same names, for example of two nuclei"""
    i = c.choice("channel", [0, 1])
    a = resonance(c, "BreitWigner", pfx="a_", n_widths=2, final=i)
    b = resonance(c, "BreitWigner", pfx="b_", n_widths=2, final=i)
    for what, r in (("second", b), ("first", a)):
        c.eq(r.res.final_state_branching_ratio, r.gammas[i] / r.width, "branching ratio of the %s" % what)
        c.eq(r.intermediate.width, r.gammas[0] + r.gammas[1], "width of the %s" % what)


H.add(independent, bounds="two resonances with equal labels and two partial widths each")
