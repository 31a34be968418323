"""Floating-point evaluation of terms at given inputs, using the real functions behind the atoms.

Only used to propose realistic inputs for replay; it decides nothing.
"""
import math
import z3


class NoValue(Exception):
    pass


class Evaluator:
    def __init__(self, engine, inputs):
        self.e = engine
        self.v = dict(inputs)
        self.v["pi"] = math.pi
        self.memo = {}

    def var(self, name):
        if name in self.v:
            x = self.v[name]
            if x is None:
                raise NoValue(name)
            return x
        d = self.e.defs.get(name)
        if d is None:
            raise NoValue(name)
        self.v[name] = None
        fn, args = d
        try:
            x = fn(*[self.term(a) for a in args])
            x = float(x)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise NoValue(name)
        if math.isnan(x):
            raise NoValue(name)
        self.v[name] = x
        return x

    def term(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._term(e)
        self.memo[k] = r
        return r

    def _term(self, e):
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if z3.is_const(e):
            return self.var(e.decl().name())
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            return self.term(e.arg(1)) if self.term(e.arg(0)) else self.term(e.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self.term(a) for a in e.children())
        if k == z3.Z3_OP_OR:
            return any(self.term(a) for a in e.children())
        if k == z3.Z3_OP_NOT:
            return not self.term(e.arg(0))
        if k == z3.Z3_OP_IMPLIES:
            return (not self.term(e.arg(0))) or self.term(e.arg(1))
        a = [self.term(x) for x in e.children()]
        try:
            if k == z3.Z3_OP_ADD:
                return sum(a)
            if k == z3.Z3_OP_SUB:
                r = a[0]
                for x in a[1:]:
                    r -= x
                return r
            if k == z3.Z3_OP_MUL:
                r = 1.0
                for x in a:
                    r *= x
                return r
            if k == z3.Z3_OP_DIV:
                return a[0] / a[1]
            if k == z3.Z3_OP_UMINUS:
                return -a[0]
            if k == z3.Z3_OP_POWER:
                return a[0] ** a[1]
        except (ZeroDivisionError, OverflowError):
            raise NoValue("arithmetic")
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return a[0] != a[1]
        if k == z3.Z3_OP_XOR:
            return bool(a[0]) != bool(a[1])
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return float(a[0]).is_integer()
        raise NoValue(str(e.decl()))


def holds(engine, inputs, constraints):
    """True if all constraints hold, None if some could not be evaluated and the others hold"""
    ev = Evaluator(engine, inputs)
    sure = True
    for c in constraints:
        try:
            if not ev.term(c):
                return False
        except NoValue:
            sure = None
    return sure
