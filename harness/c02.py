"""C02: composing cross sections leaves the operands unchanged."""
from .common import HarnessTable, leaf

HARNESSES = H = HarnessTable()

OPS = ["add", "mul", "rmul", "addnum", "raddnum"]


def history(c):
    """a sequence of operations on a growing pool of objects; every object is re-evaluated at the end"""
    E = c.pos("E")
    steps = 3 if c.thorough else 2
    pool = [leaf(c, "f%d" % i, E) for i in range(2)]
    cs = c.mod("ries.cross_section")
    k0, k1 = c.real("k0", prefer=(-3, 3)), c.real("k1", prefer=(-3, 3))
    start = c.choice("start", ["leaves", "sum"])
    if start == "sum":
        pool = [
            (cs.CrossSectionWeightedSum([pool[0][0], pool[1][0]], [k0, k1]), k0 * pool[0][1] + k1 * pool[1][1]),
            pool[0],
        ]
    for s in range(steps):
        op = c.choice("op%d" % s, OPS)
        i = c.choice("i%d" % s, list(range(len(pool))))
        a, va = pool[i]
        if op == "add":
            j = c.choice("j%d" % s, list(range(len(pool))))
            b, vb = pool[j]
            pool.append((a + b, va + vb))
        else:
            q = c.real("q%d" % s, prefer=(-3, 3))
            if op == "mul":
                pool.append((a * q, va * q))
            elif op == "rmul":
                pool.append((q * a, va * q))
            elif op == "addnum":
                pool.append((a + q, va + q))
            else:
                pool.append((q + a, va + q))
        # evaluation in between must not matter
        c.eq(pool[-1][0](E), pool[-1][1], "new object after step %d" % s, atol=1e-9)
    for n, (x, v) in enumerate(pool):
        c.eq(x(E), v, "object %d after the whole history" % n, atol=1e-9)
    c.reached("done")


H.add(history, bounds="histories of 2 (thorough: 3) operations on a pool of two cross sections (or a weighted sum and a cross section) and all results",
      reach=["done"], witnesses=25, max_paths=200000, budget=500)


def inplace(c):
    """augmented assignment rebinds the name and leaves the old object alone"""
    E = c.pos("E")
    cs = c.mod("ries.cross_section")
    (f, vf), (g, vg) = leaf(c, "f", E), leaf(c, "g", E)
    k, q = c.real("k", prefer=(-3, 3)), c.real("q", prefer=(-3, 3))
    kind = c.choice("kind", ["leaf", "sum", "scaled"])
    old, vo = {"leaf": (f, vf), "sum": (f + g, vf + vg), "scaled": (f * k, k * vf)}[kind]
    x, vx = old, vo
    op = c.choice("op", ["+=", "+=number", "*="])
    if op == "+=":
        x += g
        vx = vx + vg
    elif op == "+=number":
        x += q
        vx = vx + q
    else:
        x *= q
        vx = vx * q
    c.eq(x(E), vx, "new value", atol=1e-9)
    c.eq(old(E), vo, "old object", atol=1e-9)
    c.eq(f(E), vf, "constituent", atol=1e-9)


H.add(inplace, bounds="one augmented assignment on each kind of object", witnesses=9)


def caller_lists(c):
    """lists handed to or read from a weighted sum are not modified by later operations"""
    E = c.pos("E")
    cs = c.mod("ries.cross_section")
    lv = [leaf(c, "f%d" % i, E) for i in range(2)]
    ks = [c.real("k%d" % i, prefer=(-3, 3)) for i in range(2)]
    q = c.real("q", prefer=(-3, 3))
    rs, fs = [l for l, _ in lv], list(ks)
    s = cs.CrossSectionWeightedSum(rs, fs)
    want = ks[0] * lv[0][1] + ks[1] * lv[1][1]
    t = s + lv[0][0]
    u = s * q
    w = t + u
    x = q + s
    y = cs.CrossSectionWeightedSum()
    z = y + lv[1][0]
    c.check(len(rs) == 2 and len(fs) == 2, "length of the lists of the caller")
    c.check(rs[0] is lv[0][0] and rs[1] is lv[1][0], "list of reactions of the caller")
    c.eqs(fs, ks, "list of factors of the caller")
    c.eq(s(E), want, "original sum", atol=1e-9)
    c.eq(t(E), want + lv[0][1], "sum plus cross section", atol=1e-9)
    c.eq(u(E), want * q, "scaled sum", atol=1e-9)
    c.eq(w(E), want + lv[0][1] + want * q, "sum of sums", atol=1e-9)
    c.eq(x(E), want + q, "number plus sum", atol=1e-9)
    c.eq(y(E), 0.0, "empty sum", atol=1e-9)
    c.eq(z(E), lv[1][1], "empty sum plus cross section", atol=1e-9)
    y2 = cs.CrossSectionWeightedSum()
    c.eq(y2(E), 0.0, "second empty sum", atol=1e-9)


H.add(caller_lists, bounds="two constituents")
