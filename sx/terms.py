"""Hash-consed integer terms and conditions; z3 sees them only when a query is
actually put to the solver."""
from __future__ import annotations

import z3

_TABLE: dict = {}


class Node:
    __slots__ = ("op", "args", "vars", "_z3", "_neg")

    def __hash__(self):
        return id(self) >> 4

    # arithmetic
    def __add__(self, o):
        o = lift(o)
        if self.op == "c" and o.op == "c":
            return const(self.args[0] + o.args[0])
        if o.op == "c" and o.args[0] == 0:
            return self
        if self.op == "c" and self.args[0] == 0:
            return o
        return mk("+", self, o)

    def __radd__(self, o):
        return lift(o) + self

    def __sub__(self, o):
        o = lift(o)
        if self.op == "c" and o.op == "c":
            return const(self.args[0] - o.args[0])
        return mk("-", self, o)

    def __rsub__(self, o):
        return lift(o) - self

    def __neg__(self):
        return const(0) - self

    def __mul__(self, o):
        o = lift(o)
        if self.op == "c" and o.op == "c":
            return const(self.args[0] * o.args[0])
        return mk("*", self, o)

    __rmul__ = __mul__

    # comparisons build conditions
    def __eq__(self, o):
        return cmp("==", self, lift(o))

    def __ne__(self, o):
        return Not(cmp("==", self, lift(o)))

    def __lt__(self, o):
        return cmp("<", self, lift(o))

    def __le__(self, o):
        return cmp("<=", self, lift(o))

    def __gt__(self, o):
        return cmp("<", lift(o), self)

    def __ge__(self, o):
        return cmp("<=", lift(o), self)

    def __repr__(self):
        if self.op in ("c", "v"):
            return str(self.args[0])
        if self.op == "not":
            return f"not({self.args[0]!r})"
        if self.op in ("and", "or"):
            return "(" + f" {self.op} ".join(map(repr, self.args)) + ")"
        return f"({self.args[0]!r} {self.op} {self.args[1]!r})"


def mk(op, *args):
    key = (op, *[id(a) for a in args])
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        n._z3 = n._neg = None
        vs = frozenset()
        for a in args:
            vs |= a.vars
        n.vars = vs
        _TABLE[key] = n
    return n


def const(c):
    key = ("c", c)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.vars, n._z3, n._neg = "c", (c,), frozenset(), None, None
        _TABLE[key] = n
    return n


def var(name):
    key = ("v", name)
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.vars, n._z3, n._neg = "v", (name,), frozenset((name,)), None, None
        _TABLE[key] = n
    return n


def lift(x):
    return x if type(x) is Node else const(x)


def cmp(op, a, b):
    if a.op == "c" and b.op == "c":
        x, y = a.args[0], b.args[0]
        return x == y if op == "==" else x < y if op == "<" else x <= y
    if a is b:
        return op != "<"
    if op == "==" and (a.op == "c" or (b.op != "c" and id(a) > id(b))):
        a, b = b, a
    return mk(op, a, b)


def Not(c):
    if c is True or c is False:
        return not c
    if c.op == "not":
        return c.args[0]
    if c._neg is None:
        c._neg = mk("not", c)
    return c._neg


def And(*cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else mk("and", *out)


def Or(*cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else mk("or", *out)


BIG = 1 << 8192


def _big_numeral(i):
    """The code of a long text; the default digits limit is for the code under test."""
    import sys

    limit = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(0)
    try:
        return z3.IntVal(i)
    finally:
        sys.set_int_max_str_digits(limit)


def to_z3(n):
    if n is True or n is False:
        return z3.BoolVal(n)
    z = n._z3
    if z is None:
        op = n.op
        if op == "c":
            z = z3.IntVal(n.args[0]) if abs(n.args[0]) < BIG else _big_numeral(n.args[0])
        elif op == "v":
            z = z3.Int(n.args[0])
        else:
            a = [to_z3(x) for x in n.args]
            if op == "+":
                z = a[0] + a[1]
            elif op == "-":
                z = a[0] - a[1]
            elif op == "*":
                z = a[0] * a[1]
            elif op == "==":
                z = a[0] == a[1]
            elif op == "<":
                z = a[0] < a[1]
            elif op == "<=":
                z = a[0] <= a[1]
            elif op == "not":
                z = z3.Not(a[0])
            elif op == "and":
                z = z3.And(a)
            elif op == "or":
                z = z3.Or(a)
            else:
                raise AssertionError(op)
        n._z3 = z
    return z


def size():
    return len(_TABLE)
