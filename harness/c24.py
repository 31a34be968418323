"""C24: densities."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()

SYMBOLS = ["B", "Be", "Bi", "Br", "C", "Ca", "S", "Si"]
HEAD = "# Densities of natural elements at standard conditions\n# (https://geant4.web.cern.ch/).\n#\n"


def table(c, rows, end="\n"):
    return HEAD + "\n".join(X.ljust(5 if k == "wide" else 3) + t for X, t, k in rows) + end


def lookup(c):
    """any order of three lines, any requested symbol"""
    r = c.mod("ries.constituents.natural_element_data")
    order = c.choice("order", [("B", "Be", "Si"), ("Be", "B", "Si"), ("Si", "S", "B"), ("Bi", "Br", "B"), ("C", "Ca", "S"), ("Ca", "S", "C")])
    width = c.choice("width", ["wide", "narrow"])
    texts = [c.choice("lead%d" % i, ["0", "19"]) + "." + c.digits("d%d" % i, 3) for i in range(3)] if c.thorough else ["%d." % (7 * i + 1) + c.digits("d%d" % i, 3) for i in range(3)]
    path = c.file(table(c, list(zip(order, texts, [width] * 3)), c.choice("end", ["\n", ""])))
    conv = c.choice("conversion", ["none", "linear"])
    a, b = c.pos("a"), c.pos("b")
    if conv == "none":
        rd = r.Geant4DensityDataReader(path)
        f = lambda v: v
    else:
        f = lambda v: a * v + b
        rd = r.Geant4DensityDataReader(path, f)
    for X in SYMBOLS:
        v = rd.read_density_data(X)
        if X in order:
            c.check(v is not None, "density of %s found" % X)
            c.eq(v, f(c.num(texts[order.index(X)])), "density of %s" % X)
        else:
            c.check(v is None, "no density of %s" % X)
    for X in ("BE", "be", "b", "c", "SI", "cA"):
        c.check(rd.read_density_data(X) is None, "no density of %s" % X)
    c.reached(conv)


H.add(lookup, bounds="three lines in six orders, eight requested symbols, all digits, affine conversion", reach=["none", "linear"], max_paths=400)


def exponent(c):
    r = c.mod("ries.constituents.natural_element_data")
    t = "8." + c.digits("m", 5) + "e-" + c.digits("x", 1)
    u = "1." + c.digits("n", 5) + "e-4"
    rd = r.Geant4DensityDataReader(c.file(HEAD + "H    " + t + "\nHe   " + u + "\n"))
    c.eq(rd.read_density_data("H"), c.num(t), "density of H")
    c.eq(rd.read_density_data("He"), c.num(u), "density of He")
    c.check(rd.read_density_data("Hg") is None, "no density of Hg")


H.add(exponent, bounds="two lines, exponents -9..0")


def repeated(c):
    """requests in any sequence and of two readers"""
    r = c.mod("ries.constituents.natural_element_data")
    t, u = "3." + c.digits("t", 2), "5." + c.digits("u", 2)
    k = c.pos("k")
    a = r.Geant4DensityDataReader(c.file(HEAD + "P    " + t + "\nPb   " + u + "\n", name="a.txt"))
    b = r.Geant4DensityDataReader(c.file(HEAD + "Pb   " + t + "\nP    " + u + "\n", name="b.txt"), density_conversion=lambda v: k * v)
    s = [c.choice("s%d" % i, ["aP", "aPb", "bP", "bPb"]) for i in range(3)]
    want = {"aP": c.num(t), "aPb": c.num(u), "bP": k * c.num(u), "bPb": k * c.num(t)}
    for q in s:
        c.eq({"a": a, "b": b}[q[0]].read_density_data(q[1:]), want[q], "request " + q)


H.add(repeated, bounds="all sequences of three requests of two readers", max_paths=200)
