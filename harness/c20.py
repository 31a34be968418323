"""C20: attenuation files."""
from .common import HarnessTable

HARNESSES = H = HarnessTable()

ENERGY_EXPONENTS = ["-03", "-02", "+00"]


def mantissa(c, name, lead, n):
    return lead + "." + c.digits(name, n)


def conversions(c):
    """affine, so that applying one twice or to the other column differs"""
    a, a0 = c.pos("a"), c.pos("a0")
    b, b0 = c.pos("b"), c.pos("b0")
    return (lambda x: x * a + a0), (lambda x: x * b + b0)


def numbers(c, n, de, dx):
    """texts of n lines of three numbers"""
    lines = []
    leads = c.choice("leads", ["192", "357"] if not c.thorough else ["192", "357", "111", "986"])
    for i in range(n):
        e = mantissa(c, "e%d_" % i, leads[i % 3] if i else "1", de) + "E" + ENERGY_EXPONENTS[min(i, 2)]
        m = mantissa(c, "m%d_" % i, leads[(i + 1) % 3], dx) + "E" + ["+03", "+00", "-02"][i % 3]
        r = mantissa(c, "r%d_" % i, leads[(i + 2) % 3], dx) + "E" + ["+02", "-01", "-05"][i % 3]
        lines.append((e, m, r))
    return lines


def text(lines, labels, end, tail):
    out = []
    for i, (e, m, r) in enumerate(lines):
        out.append((labels[i] if labels else "") + e + "  " + m + "  " + r + tail)
    return "\n".join(out) + end


LABELS = {
    "none": None,
    "blank": ["   ", "   ", "   ", "   "],
    "later": ["   ", "K  ", "M5 ", "L1 "],
    "first": ["K  ", "   ", "L3 ", "   "],
}


def verify(c, k, lines, fe, fx, what):
    n = len(lines)
    c.check(tuple(k.data.shape) == (n, 3), what + ": one row of three numbers per line")
    for i, (e, m, r) in enumerate(lines):
        c.eq(k.data[i, 0], fe(c.num(e)), what + ": energy of line %d" % i)
        c.eq(k.data[i, 1], fx(c.num(m)), what + ": attenuation of line %d" % i)
        c.eq(k.data[i, 2], fx(c.num(r)), what + ": energy absorption of line %d" % i)


def file(c):
    x = c.mod("ries.nonresonant.xrmac")
    n = c.params.get("n", 3)
    labels = c.choice("labels", list(LABELS))
    end = c.choice("end", ["\n", ""])
    tail = c.choice("tail", [" ", ""])
    lines = numbers(c, n, c.params.get("de", 5), c.params.get("dx", 3))
    fe, fx = conversions(c)
    path = c.file(text(lines, LABELS[labels], end, tail))
    k = x.XRMAC(path, energy_conversion=fe, xrmac_conversion=fx)
    verify(c, k, lines, fe, fx, labels)
    c.reached(labels)


H.add(file, bounds="three lines, all digits of mantissas with 5 and 3 decimals, with and without labels, line end and trailing blank; affine conversions", reach=list(LABELS), params={})
H.add(file, name="file_long", bounds="four lines, 6 and 4 decimals", params={"n": 4, "de": 6, "dx": 4}, thorough_only=True)


def defaults(c):
    """no conversion unless one is given"""
    x = c.mod("ries.nonresonant.xrmac")
    lines = numbers(c, 2, 3, 3)
    path = c.file(text(lines, LABELS[c.choice("labels", ["none", "later"])], "\n", " "))
    same = lambda v: v
    fe, fx = conversions(c)
    which = c.choice("given", ["neither", "energy", "attenuation", "positional"])
    if which == "neither":
        k = x.XRMAC(path)
        verify(c, k, lines, same, same, "no conversion")
    elif which == "energy":
        k = x.XRMAC(path, energy_conversion=fe)
        verify(c, k, lines, fe, same, "energy conversion")
    elif which == "attenuation":
        k = x.XRMAC(path, xrmac_conversion=fx)
        verify(c, k, lines, same, fx, "attenuation conversion")
    else:
        k = x.XRMAC(path, fe, fx)
        verify(c, k, lines, fe, fx, "both conversions")
    c.reached(which)


H.add(defaults, bounds="two lines, 3 decimals", reach=["neither", "energy", "attenuation", "positional"])


def exponents(c):
    """one number with an arbitrary exponent"""
    x = c.mod("ries.nonresonant.xrmac")
    col = c.choice("column", [0, 1, 2])
    sign = c.choice("sign", ["+", "-"])
    if col == 0 and sign == "+":
        return  # keeps the energies in ascending order
    num = ["2.50000E-00", "3.25E+01", "4.5E+00"]
    num[col] = mantissa(c, "v", "7", 3) + "E" + sign + "0" + c.digits("x", 1)
    lines = [tuple(num), ("8.00000E+01", "1.5E+00", "1.25E+00")]
    k = x.XRMAC(c.file(text(lines, None, "\n", " ")))
    same = lambda v: v
    verify(c, k, lines, same, same, "exponent")


H.add(exponents, bounds="two lines, one number with exponent -9..9", max_paths=200)


def array(c):
    x = c.mod("ries.nonresonant.xrmac")
    n = 3
    cols = c.choice("columns", [2, 3])
    E = [c.real("E%d" % i, 0, prefer=(0.01 * 10 ** i, 0.02 * 10 ** i)) for i in range(n)]
    for i in range(n - 1):
        c.assume(E[i] < E[i + 1])
    A = [c.real("A%d" % i, 0, prefer=(0.1, 10.0)) for i in range(n)]
    B = [c.real("B%d" % i, 0, prefer=(0.1, 10.0)) for i in range(n)]
    rows = [[E[i], A[i]] + ([B[i]] if cols == 3 else []) for i in range(n)]
    data = c.array2(rows)
    given = c.choice("given", ["neither", "both"])
    same = lambda v: v
    if given == "both":
        fe, fx = conversions(c)
        k = x.XRMAC(data, fe, fx)
    else:
        fe, fx = same, same
        k = x.XRMAC(data)
    c.check(tuple(k.data.shape) == (n, cols), "one row per point")
    for i in range(n):
        c.eq(k.data[i, 0], fe(E[i]), "energy %d" % i)
        c.eq(k.data[i, 1], fx(A[i]), "attenuation %d" % i)
        if cols == 3:
            c.eq(k.data[i, 2], fx(B[i]), "energy absorption %d" % i)
        for j in range(cols):
            c.eq(data[i, j], rows[i][j], "array of the caller")


H.add(array, bounds="arrays of three points and two or three columns")


def other(c):
    """reading one file does not depend on another one read before"""
    x = c.mod("ries.nonresonant.xrmac")
    fe, fx = conversions(c)
    lines = numbers(c, 2, 2, 2)
    more = [("2." + c.digits("q", 2) + "E-03", "5.5E+00", "4.5E+00"), ("2.25E-01", "5.25E+00", "4.25E+00"), ("2.5E+02", "3.0E-01", "1.0E-01")]
    first = c.choice("first", ["none", "later"])
    second = c.choice("second", ["none", "later"])
    same = lambda v: v
    p = x.XRMAC(c.file(text(lines, LABELS[first], "\n", " "), name="one.txt"), fe, fx)
    q = x.XRMAC(c.file(text(more, LABELS[second], "\n", " "), name="two.txt"))
    verify(c, q, more, same, same, "second file")
    verify(c, p, lines, fe, fx, "first file")


H.add(other, bounds="two files")


def edges(c):
    """absorption edges: two lines with the same energy, kept as they are"""
    x = c.mod("ries.nonresonant.xrmac")
    fe, fx = conversions(c)
    lines = numbers(c, 3, 3, 3)
    at = c.choice("edge", [0, 1])
    lines[at + 1] = (lines[at][0],) + lines[at + 1][1:]
    k = x.XRMAC(c.file(text(lines, LABELS[c.choice("labels", ["none", "later"])], "\n", " ")), fe, fx)
    c.check(tuple(k.data.shape) == (3, 3), "both lines of an edge are kept")
    verify(c, k, lines, fe, fx, "edge")
    c.check(k.data[at, 0] == k.data[at + 1, 0], "same energy on both sides of the edge")


H.add(edges, bounds="three lines, two of them with the same energy")
