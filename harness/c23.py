"""C23: isotope records."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()


def record(Z, X, A, mass, comp, tail="Standard Atomic Weight = [1.00784,1.00811]\nNotes = m\n"):
    return (
        "Atomic Number = %s\nAtomic Symbol = %s\nMass Number = %s\nRelative Atomic Mass = %s\nIsotopic Composition = %s\n%s\n"
        % (Z, X, A, mass, comp, tail)
    )


HEAD = "# Element properties\n#\n# [1] Atomic Weights and Isotopic Compositions\n\n"


def mass(c, name, n=4):
    """text and value of a mass"""
    t = c.choice(name + "_lead", ["2", "37"]) + "." + c.digits(name, n)
    return t


def uncertainty(c, name):
    return c.choice(name + "_unc", ["", "(9)", "(12)"])


def composition(c, name):
    """(text, is the value printed) of an abundance"""
    kind = c.choice(name + "_kind", ["value", "uncertain", "one", "none"])
    if kind == "none":
        return "", None
    if kind == "one":
        return "1", "1"
    t = "0." + c.digits(name, 4)
    return t + ("(70)" if kind == "uncertain" else ""), t


def verify(c, result, want):
    """want: {name: (mass text, abundance text or None)}"""
    abundances, isotopes = result
    c.check(sorted(abundances) == sorted(want), "abundances of exactly the isotopes")
    c.check(sorted(isotopes) == sorted(want), "exactly the isotopes")
    for AX, (m, w) in want.items():
        c.eq(isotopes[AX].amu, c.num(m), "mass")
        c.check(isotopes[AX].AX == AX, "name of the isotope")
        if w is None:
            c.eq(abundances[AX], 0.0, "abundance zero")
        else:
            c.eq(abundances[AX], c.num(w), "abundance")


def element(c):
    """two isotopes of the requested element between two other elements"""
    r = c.mod("ries.constituents.natural_element_data")
    m1, m2 = mass(c, "m1"), mass(c, "m2", 3)
    u1 = uncertainty(c, "m1")
    w1, v1 = composition(c, "w1")
    w2, v2 = composition(c, "w2")
    other = "0." + c.digits("o", 2)
    text = HEAD
    text += record(3, "Li", 6, "6.0" + c.digits("p", 2) + "(3)", other)
    text += record(4, "Be", 9, m1 + u1, w1) + record(4, "Be", 10, m2 + "(5)", w2)
    text += record(5, "B", 10, "10.0" + c.digits("q", 2), other + "(1)")
    rd = r.NISTElementDataReader(c.file(text))
    verify(c, rd.read_nist_element_data(4), {"9Be": (m1, v1), "10Be": (m2, v2)})
    c.reached("value" if v1 not in (None, "1") else str(v1))


H.add(element, bounds="four records, masses of up to 4 and abundances of 4 decimals with all digits, with and without uncertainty, printed or not", reach=["value", "None", "1"], max_paths=400, witnesses=12)


def position(c):
    """first, middle or last element, or none"""
    r = c.mod("ries.constituents.natural_element_data")
    ms = ["1." + c.digits("a", 2), "3." + c.digits("b", 2), "4." + c.digits("d", 2), "197." + c.digits("e", 3)]
    ws = ["0." + c.digits("w%d" % i, 2) for i in range(4)]
    recs = [(1, "H", 1), (2, "He", 3), (2, "He", 4), (79, "Au", 197)]
    last = c.choice("end", ["Notes =  \n", "Notes = g,r\n", ""])
    text = HEAD + "".join(record(Z, X, A, m + "(2)", w + "(1)", "Standard Atomic Weight = 4.002602(2)\n" + last) for (Z, X, A), m, w in zip(recs, ms, ws))
    rd = r.NISTElementDataReader(c.file(text))
    Z = c.choice("Z", [1, 2, 79, 5, 0, 80])
    verify(c, rd.read_nist_element_data(Z), {"%d%s" % (A, X): (m, w) for (z, X, A), m, w in zip(recs, ms, ws) if z == Z})
    # a second request
    Y = c.choice("Y", [1, 79])
    verify(c, rd.read_nist_element_data(Y), {"%d%s" % (A, X): (m, w) for (z, X, A), m, w in zip(recs, ms, ws) if z == Y})


H.add(position, bounds="four records of three elements, all requested proton numbers, two requests", max_paths=400)


def numbers(c):
    """proton and mass numbers from symbolic digits"""
    r = c.mod("ries.constituents.natural_element_data")
    d = c.digits("Z", 1)
    A = "1" + c.digits("A", 1)
    z = c.num(d)
    c.assume(z >= 1)
    m, w = "5." + c.digits("m", 2), "0." + c.digits("w", 2)
    text = HEAD + record(d, "Xx", A, m, w)
    rd = r.NISTElementDataReader(c.file(text))
    req = c.int_("request", 1, 9)
    ab, iso = rd.read_nist_element_data(req)
    if req == z:
        c.check(len(ab) == 1 and len(iso) == 1, "found")
        (k,) = iso
        c.check(k.endswith("Xx"), "symbol")
        c.eq(c.numbers(k)[0], c.num(A), "mass number")
        c.eq(ab[k], c.num(w), "abundance")
        c.eq(iso[k].amu, c.num(m), "mass")
        c.reached("match")
    else:
        c.check(len(ab) == 0 and len(iso) == 0, "not found")
        c.reached("other")


H.add(numbers, bounds="one record, all one-digit proton numbers and requests, all mass numbers 10..19", reach=["match", "other"])


def symbols(c):
    r = c.mod("ries.constituents.natural_element_data")
    recs = [(1, "H", 1), (1, c.choice("second", ["H", "D"]), 2), (2, "He", 4), (113, "Uut", 284), (92, "U", 238)]
    text = HEAD + "".join(record(Z, X, A, "5." + c.digits("m%d" % A, 1), "") for Z, X, A in recs)
    rd = r.NISTElementDataReader(c.file(text))
    want = {1: "H", 2: "He", 113: "Uut", 92: "U"}
    got = rd.read_nist_element_symbols()
    c.check(dict(got) == want, "symbols")
    c.check(dict(rd.read_nist_element_symbols()) == want, "symbols read again")


H.add(symbols, bounds="five records")


def readers(c):
    """two readers do not influence each other"""
    r = c.mod("ries.constituents.natural_element_data")
    m1, m2 = "7." + c.digits("m", 3), "8." + c.digits("n", 3)
    w1, w2 = "0." + c.digits("v", 3), "0." + c.digits("w", 3)
    a = r.NISTElementDataReader(c.file(HEAD + record(3, "Li", 7, m1 + "(1)", w1), name="a.txt"))
    b = r.NISTElementDataReader(c.file(HEAD + record(3, "Li", 7, m2, w2 + "(3)"), name="b.txt"))
    order = c.choice("order", ["ab", "ba"])
    for k in order + order:
        verify(c, (a if k == "a" else b).read_nist_element_data(3), {"7Li": (m1, w1) if k == "a" else (m2, w2)})


H.add(readers, bounds="two readers with one record each, requests in both orders")


def unsorted_uncertainty(c):
    """scientific values as printed for heavy isotopes"""
    r = c.mod("ries.constituents.natural_element_data")
    n = c.choice("digits", [1, 6, 11])
    m = "238." + c.digits("m", n)
    w = "0.000" + c.digits("w", min(n, 6))
    mu, wu = c.choice("mu", ["", "(10#)", "(1)"]), c.choice("wu", ["", "(54)"])
    rd = r.NISTElementDataReader(c.file(HEAD + record(92, "U", 238, m + mu, w + wu)))
    verify(c, rd.read_nist_element_data(92), {"238U": (m, w)})


H.add(unsorted_uncertainty, name="decimals", bounds="one record with up to 11 decimals")
