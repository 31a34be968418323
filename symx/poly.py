"""Normal forms of rational functions over z3 constants (exact rational arithmetic).

Used to recognise equal terms and to put the two sides of an equation over a
common denominator before the solver sees it.
"""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 6000
_atoms = {}
_names = {}


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def _pmul(a, b):
    if len(a) * len(b) > LIMIT * 10:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def _cancel_common(n, d):
    """cancel common monomial and content"""
    if not n or not d:
        return n, d
    if d == ONE:
        return n, d
    common = None
    for p in (n, d):
        for m in p:
            md = dict(m)
            if common is None:
                common = md
            else:
                common = {v: min(e, md.get(v, 0)) for v, e in common.items() if md.get(v, 0)}
            if not common:
                break
        if not common:
            break
    if common:
        def div(p):
            out = {}
            for m, c in p.items():
                out[tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0))] = c
            return out

        n, d = div(n), div(d)
    if len(d) == 1:
        (m, c), = d.items()
        if c != 1:
            n = {k: v / c for k, v in n.items()}
            d = {m: Fraction(1)}
    return n, d


_cache = {}


def norm(e):
    """(numerator, denominator) of a z3 real term"""
    k = e.get_id()
    hit = _cache.get(k)
    if hit is not None and hit[0].eq(e):
        if hit[1] is None:
            raise TooBig()
        return hit[1]
    try:
        r = _norm(e)
    except TooBig:
        _cache[k] = (e, None)
        raise
    if len(_cache) > 100000:
        _cache.clear()
    _cache[k] = (e, r)
    return r


def _atom(e):
    if z3.is_const(e):
        name = e.decl().name()
    else:
        k = e.get_id()
        hit = _atoms.get(k)
        if hit is None or not hit[0].eq(e):
            name = "@" + e.sexpr()
            _atoms[k] = (e, name)
        else:
            name = hit[1]
    _names[name] = e
    return {((name, 1),): Fraction(1)}, ONE


def _norm(e):
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return ({(): f} if f else {}), ONE
    if z3.is_int_value(e):
        f = Fraction(e.as_long())
        return ({(): f} if f else {}), ONE
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        n, d = norm(e.arg(0))
        for i in range(1, e.num_args()):
            n2, d2 = norm(e.arg(i))
            if d == d2:
                n = _padd(n, n2)
            else:
                n, d = _cancel_common(_padd(_pmul(n, d2), _pmul(n2, d)), _pmul(d, d2))
        return n, d
    if k == z3.Z3_OP_SUB:
        n, d = norm(e.arg(0))
        for i in range(1, e.num_args()):
            n2, d2 = norm(e.arg(i))
            if d == d2:
                n = _padd(n, n2, -1)
            else:
                n, d = _cancel_common(_padd(_pmul(n, d2), _pmul(n2, d), -1), _pmul(d, d2))
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = norm(e.arg(0))
        return {m: -c for m, c in n.items()}, d
    if k == z3.Z3_OP_MUL:
        n, d = norm(e.arg(0))
        for i in range(1, e.num_args()):
            n2, d2 = norm(e.arg(i))
            if d2 == n and n:
                n, d = n2, d
                continue
            if n2 == d and d != ONE:
                n, d = n, d2
                continue
            n, d = _cancel_common(_pmul(n, n2), _pmul(d, d2))
        return n, d
    if k == z3.Z3_OP_DIV:
        n, d = norm(e.arg(0))
        n2, d2 = norm(e.arg(1))
        if not n2:
            raise TooBig()
        if n == n2:
            return d2, d
        if d == d2:
            return _cancel_common(n, n2)
        return _cancel_common(_pmul(n, d2), _pmul(d, n2))
    return _atom(e)


def identical(a, b):
    try:
        n1, d1 = norm(a)
        n2, d2 = norm(b)
        if d1 == d2:
            return n1 == n2
        if len(d1) * len(n2) > 40000 or len(d2) * len(n1) > 40000:
            return False
        return _pmul(n1, d2) == _pmul(n2, d1)
    except TooBig:
        return False


def difference(a, b, relations=()):
    """polynomial that vanishes iff a == b (denominators are nonzero), reduced modulo
    relations [(name, n, z3 term x)] meaning name**n == x, latest first.  Raises TooBig."""
    n1, d1 = norm(a)
    n2, d2 = norm(b)
    if d1 == d2:
        p = _padd(n1, n2, -1)
    else:
        p = _padd(_pmul(n1, d2), _pmul(n2, d1), -1)
    for name, n, x in relations:
        if not any(v == name and e >= n for m in p for v, e in m):
            continue
        N, D = norm(x)
        by = {}
        for m, c in p.items():
            k = 0
            rest = []
            for v, e in m:
                if v == name:
                    k = e
                else:
                    rest.append((v, e))
            by.setdefault(k, {})[tuple(rest)] = c
        mx = max(k // n for k in by)
        r = {}
        Np = [ONE]
        Dp = [ONE]
        for _ in range(mx):
            Np.append(_pmul(Np[-1], N))
            Dp.append(_pmul(Dp[-1], D))
        for k, q in by.items():
            t = _pmul(_pmul(q, Np[k // n]), Dp[mx - k // n])
            if k % n:
                t = _pmul(t, {((name, k % n),): Fraction(1)})
            r = _padd(r, t)
        p = r
    return p


def to_z3(p):
    terms = []
    for m, c in p.items():
        t = z3.RatVal(c.numerator, c.denominator)
        for v, e in m:
            x = _names[v]
            for _ in range(e):
                t = t * x
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms)
