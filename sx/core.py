"""Dynamic symbolic execution for CPython.

Real koreo code runs on *symbolic values*: objects that are genuine `int`/`str`
subclasses (so every isinstance / class pattern / C helper accepts them), carry
the concrete value the current solver model gives them, and a z3 term.  Every
comparison or truth test of such a value is a *branch*: its condition (a z3
formula) is recorded in the path condition.  After each run the explorer asks
z3, for every recorded branch, whether the opposite outcome is satisfiable
together with the branches before it; if so, the model it returns seeds another
run, which takes that other side.  Each feasible path is executed exactly once.
When no unexplored feasible side is left, the harness has been decided for every
value of its symbolic inputs within its stated bounds: a violated assertion
would be a feasible path, and z3 shows there is none.

Control choices (shapes, operation kinds, outcome classes, schedules) are solver
variables as well: `choice` branches on an integer variable.
"""
from __future__ import annotations

import sys
import time as _time

_VTPY = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VTPY not in sys.path:
    sys.path.append(_VTPY)  # appended: /opt/venv's own lark keeps precedence

import z3

from . import terms
from .terms import And, Not, Or, const, var
from celpy import celtypes


class PathEnd(BaseException):
    """Stops a path: an assumption does not hold on it."""


class Violated(BaseException):
    def __init__(self, prop, message, detail=None):
        super().__init__(message)
        self.prop = prop
        self.message = message
        self.detail = detail


# --------------------------------------------------------------------------
# text <-> solver code.  Atoms (opaque strings) are integers for the solver;
# the code of a concrete text is injective and reversible.

def code_of(text: str) -> int:
    return int.from_bytes(b"\x01" + text.encode("utf-8", "surrogatepass"), "big")


def text_of(code: int) -> str:
    if code > 0:
        raw = code.to_bytes((code.bit_length() + 7) // 8, "big")
        if raw[:1] == b"\x01":
            try:
                return raw[1:].decode("utf-8", "surrogatepass")
            except UnicodeDecodeError:
                pass
    return f"~{code}"


# --------------------------------------------------------------------------


class _IdSet:
    """Set of hash-consed conditions (`==` on them builds terms)."""

    __slots__ = ("ids",)

    def __init__(self):
        self.ids = set()

    def __contains__(self, c):
        return id(c) in self.ids

    def add(self, c):
        self.ids.add(id(c))


class Engine:
    """One instance per worker process; `run` executes one path."""

    def __init__(self):
        self.active = False
        self.reset({}, 0)

    def reset(self, model, prefix):
        self.model = dict(model)
        self.prefix = prefix
        self.path = []  # (z3 cond as taken, flippable)
        self.decided = _IdSet()  # conditions already settled on this path
        self.hashed = []  # symbolic atoms hashed on this path
        self.pins = 0
        self.lost = 0
        self.names = set()
        self.steps = 0

    var = staticmethod(var)

    def fresh_name(self, name):
        if name in self.names:
            i = 2
            while f"{name}#{i}" in self.names:
                i += 1
            name = f"{name}#{i}"
        self.names.add(name)
        return name

    def record(self, cond, taken: bool, flippable=True):
        if cond is True or cond is False:
            return taken
        if cond in self.decided:
            return taken
        self.decided.add(cond)
        self.path.append((cond if taken else Not(cond), flippable))
        return taken

    # a branch decided by the concrete value, recorded symbolically
    def branch(self, cond, concrete) -> bool:
        concrete = bool(concrete)
        if self.active:
            self.record(cond, concrete)
        return concrete

    def constrain(self, cond):
        """A declared bound on an input: not a branch."""
        if self.active:
            self.record(cond, True, flippable=False)

    def pin(self, sym):
        """A symbolic value whose concrete value leaks into code that is not
        followed: the path condition fixes it (coverage is lost, soundness of
        the path is not)."""
        if self.active and not sym._pinned:
            sym._pinned = True
            self.pins += 1
            self.record(sym.t == sym.c_code(), True, flippable=False)


ENGINE = Engine()


# --------------------------------------------------------------------------
# symbolic values


class Sym:
    __slots__ = ()


def is_sym(v):
    return isinstance(v, Sym)


def _int_term(v):
    if isinstance(v, SymIntBase):
        return v.t
    return const(int(v))


class SymIntBase(Sym):
    def c_code(self):
        return int.__index__(self)

    def c(self):
        return int.__add__(int.__index__(self), 0)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _cmp(self, other, op):
        if isinstance(other, SymIntBase):
            a, b, tb = self.c(), other.c(), other.t
        elif isinstance(other, (bool, int)):
            a, b = self.c(), int.__index__(other)
            tb = const(b)
        elif isinstance(other, SymFloatBase):
            return ENGINE.branch(_OPS[op](self.t * FLOAT_UNIT, other.t), _OPS[op](self.c() * FLOAT_UNIT, other.units))
        elif isinstance(other, float):
            a, b = self.c(), float.__add__(other, 0.0)
            if b != b or b in (float("inf"), float("-inf")):
                return _OPS[op](a, b)
            if b == int(b):
                tb = const(int(b))
                b = int(b)
            else:
                ENGINE.pin(self)
                return _OPS[op](a, b)
        else:
            return NotImplemented
        if self is other:
            return _OPS[op](a, b)
        return ENGINE.branch(_OPS[op](self.t, tb), _OPS[op](a, b))

    def __bool__(self):
        return ENGINE.branch(self.t != 0, self.c() != 0)

    def __hash__(self):
        return _sym_hash(self, int.__hash__(self.c()))

    def __repr__(self):
        return int.__repr__(self.c())

    def __str__(self):
        return SymDec(int.__repr__(self.c()), self)

    def __format__(self, spec):
        if not spec:
            return SymDec(int.__repr__(self.c()), self)
        ENGINE.pin(self)
        return int.__format__(self.c(), spec)

    def __reduce__(self):
        return (int, (self.c(),))


import operator as _op

_OPS = {
    "eq": _op.eq,
    "ne": _op.ne,
    "lt": _op.lt,
    "le": _op.le,
    "gt": _op.gt,
    "ge": _op.ge,
}


def _mk_cmp(op, base):
    def cmp(self, other):
        r = self._cmp(other, op)
        if r is NotImplemented:
            return getattr(base, f"__{op}__")(self, other)
        return r

    cmp.__name__ = f"__{op}__"
    return cmp


def _arith(name, fn):
    def f(self, other):
        if isinstance(other, SymIntBase) or (
            isinstance(other, int) and not isinstance(other, bool)
        ):
            return self._mk(fn(self.t, _int_term(other)), fn(self.c(), int.__index__(other)))
        return NotImplemented

    def r(self, other):
        if isinstance(other, int):
            return self._mk(fn(_int_term(other), self.t), fn(int.__index__(other), self.c()))
        return NotImplemented

    return f, r


class SymPyInt(SymIntBase, int):
    def __new__(cls, term, concrete):
        self = int.__new__(cls, concrete)
        self.t = term
        self._pinned = False
        return self

    def _mk(self, t, c):
        return SymPyInt(t, c)

    __add__, __radd__ = _arith("add", _op.add)
    __sub__, __rsub__ = _arith("sub", _op.sub)
    __hash__ = SymIntBase.__hash__

    def __neg__(self):
        return SymPyInt(-self.t, -self.c())

    def __deepcopy__(self, memo):
        return self


class SymCelInt(SymIntBase, celtypes.IntType):
    def __new__(cls, term, concrete):
        self = int.__new__(cls, concrete)
        self.t = term
        self._pinned = False
        return self

    def _mk(self, t, c):
        if not -(2**63) <= c < 2**63:
            raise ValueError("overflow")
        return SymCelInt(t, c)

    def _cmp(self, other, op):
        # celtypes.IntType refuses other CEL types ("no such overload")
        if isinstance(other, int) and not isinstance(other, (celtypes.UintType, celtypes.BoolType)):
            return SymIntBase._cmp(self, other, op)
        return NotImplemented

    __add__, __radd__ = _arith("add", _op.add)
    __sub__, __rsub__ = _arith("sub", _op.sub)
    __hash__ = SymIntBase.__hash__

    def __neg__(self):
        return SymCelInt(-self.t, -self.c())


for _name in _OPS:
    setattr(SymPyInt, f"__{_name}__", _mk_cmp(_name, int))
    setattr(SymCelInt, f"__{_name}__", _mk_cmp(_name, celtypes.IntType))


def _group(sym):
    g = getattr(sym, "group", None)
    if g:
        return g
    if isinstance(sym, SymDec):
        return "dec"
    return "str" if isinstance(sym, str) else "int"


def _sym_hash(sym, h):
    """Membership by hash: decide (as branches) how this value relates to every
    constant of its declared domain and to every symbolic value hashed before."""
    if ENGINE.active:
        for k in getattr(sym, "domain", ()) or ():
            ENGINE.branch(sym.t == (code_of(k) if isinstance(k, str) else k), sym.c() == k)
        for other in ENGINE.hashed:
            if other is sym:
                break
            if _group(other) == _group(sym):
                ENGINE.branch(sym.t == other.t, sym.c_code() == other.c_code())
        else:
            ENGINE.hashed.append(sym)
    return h


class SymStrBase(Sym):
    """An opaque text: the solver decides equality with any other text."""

    domain = ()

    def c_code(self):
        return code_of(self.c())

    def c(self):
        return str.__str__(self) if type(self) is str else str.__getitem__(self, slice(None))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _eq(self, other):
        if self is other:
            return True
        if isinstance(other, SymStrBase):
            return ENGINE.branch(self.t == other.t, str.__eq__(self, other))
        if isinstance(other, SymDec):
            ENGINE.pin(other.num)
            return ENGINE.branch(self.t == code_of(_plain(other)), str.__eq__(self, _plain(other)))
        if isinstance(other, str):
            return ENGINE.branch(self.t == code_of(_plain(other)), str.__eq__(self, _plain(other)))
        return NotImplemented

    def __eq__(self, other):
        r = self._eq(other)
        return False if r is NotImplemented else r

    def __ne__(self, other):
        r = self._eq(other)
        return True if r is NotImplemented else not r

    def __bool__(self):
        return ENGINE.branch(self.t != code_of(""), str.__len__(self) != 0)

    def __len__(self):
        if str.__len__(self) == 0 or not ENGINE.active:
            ENGINE.branch(self.t != code_of(""), str.__len__(self) != 0)
            return str.__len__(self)
        ENGINE.branch(self.t != code_of(""), True)
        ENGINE.lost += 1
        return str.__len__(self)

    def __hash__(self):
        return _sym_hash(self, str.__hash__(_plain(self)))

    def __str__(self):
        return SymPyStr(self.t, _plain(self), self.domain)

    def __repr__(self):
        return str.__repr__(_plain(self))

    def __format__(self, spec):
        if not spec:
            return SymPyStr(self.t, _plain(self), self.domain)
        ENGINE.pin(self)
        return str.__format__(_plain(self), spec)

    def strip(self, chars=None):
        # declared texts have no surrounding blanks: identity on that domain
        s = _plain(self)
        r = s.strip(chars) if chars is not None else s.strip()
        if r == s and chars is None:
            return self
        ENGINE.pin(self)
        return r

    def __reduce__(self):
        return (str, (_plain(self),))


def _plain(s):
    """The exact `str` with the same content."""
    return str.__str__(s)[:] if type(s) is not str else s


def _mk_pinned(name):
    native = getattr(str, name)

    def f(self, *a, **k):
        ENGINE.pin(self)
        return native(_plain(self), *a, **k)

    f.__name__ = name
    return f


class SymPyStr(SymStrBase, str):
    def __new__(cls, term, concrete, domain=()):
        self = str.__new__(cls, concrete)
        self.t = term
        self.domain = domain
        self._pinned = False
        return self

    def c(self):
        return _plain(self)

    __eq__ = SymStrBase.__eq__
    __ne__ = SymStrBase.__ne__
    __hash__ = SymStrBase.__hash__


class SymCelStr(SymStrBase, celtypes.StringType):
    def __new__(cls, term, concrete, domain=()):
        self = str.__new__(cls, concrete)
        self.t = term
        self.domain = domain
        self._pinned = False
        return self

    def c(self):
        return _plain(self)

    __eq__ = SymStrBase.__eq__
    __ne__ = SymStrBase.__ne__
    __hash__ = SymStrBase.__hash__


for _name in (
    "lower upper lstrip rstrip split rsplit startswith endswith replace encode find "
    "rfind index partition rpartition removeprefix removesuffix isdigit isalpha "
    "casefold title count zfill splitlines translate __contains__ __getitem__ __iter__ "
    "__lt__ __le__ __gt__ __ge__ __mod__ __mul__"
).split():
    setattr(SymPyStr, _name, _mk_pinned(_name))
    setattr(SymCelStr, _name, _mk_pinned(_name))
_PINNED = (
    "lower upper lstrip rstrip split rsplit startswith endswith replace encode find "
    "rfind index partition rpartition removeprefix removesuffix isdigit isalpha "
    "casefold title count zfill splitlines translate __contains__ __getitem__ __iter__ "
    "__lt__ __le__ __gt__ __ge__ __mod__ __mul__"
).split()


class SymDec(Sym, str):
    """Decimal text of a symbolic int."""

    def __new__(cls, text, num):
        self = str.__new__(cls, text)
        self.num = num
        self.t = num.t
        return self

    def c_code(self):
        return self.num.c_code()

    def c(self):
        return _plain(self)

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, other):
        if isinstance(other, SymDec):
            return self.num.c() == other.num.c() if self.num is other.num else ENGINE.branch(
                self.num.t == other.num.t, self.num.c() == other.num.c()
            )
        if isinstance(other, SymStrBase):
            return other.__eq__(self)
        if isinstance(other, str):
            p = _plain(other)
            try:
                v = int(p)
            except ValueError:
                return False
            if str(v) != p:
                return False
            return ENGINE.branch(self.num.t == v, self.num.c() == v)
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return _sym_hash(self, str.__hash__(_plain(self)))

    def __str__(self):
        return self

    def __format__(self, spec):
        return self if not spec else str.__format__(_plain(self), spec)

    def strip(self, *a):
        return self

    def __reduce__(self):
        return (str, (_plain(self),))


class SymRope(Sym, str):
    """Text assembled from literal and symbolic parts."""

    def __new__(cls, parts):
        flat = []
        for p in parts:
            if isinstance(p, SymRope):
                flat.extend(p.parts)
            else:
                flat.append(p)
        self = str.__new__(cls, "".join([_plain(p) if isinstance(p, str) else str(p) for p in flat]))
        self.parts = flat
        return self

    def syms(self):
        return [p for p in self.parts if isinstance(p, Sym)]

    def c(self):
        return _plain(self)

    def _pin(self):
        for p in self.syms():
            pin_text(p)

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, str):
            return False
        if isinstance(other, SymRope):
            if len(self.parts) == len(other.parts) and all(
                (isinstance(a, Sym) and isinstance(b, Sym)) or (not isinstance(a, Sym) and not isinstance(b, Sym) and a == b)
                for a, b in zip(self.parts, other.parts)
            ) and len(self.syms()) == 1:
                return all(a == b for a, b in zip(self.parts, other.parts))
            self._pin(), other._pin()
            return str.__eq__(_plain(self), _plain(other))
        if isinstance(other, Sym):
            self._pin()
            return other == _plain(self)
        syms = self.syms()
        if len(syms) == 1 and isinstance(syms[0], (SymStrBase, SymDec)):
            i = next(k for k, p in enumerate(self.parts) if p is syms[0])
            pre = "".join(self.parts[:i])
            post = "".join(self.parts[i + 1 :])
            o = _plain(other)
            if len(o) < len(pre) + len(post) or not o.startswith(pre) or not o.endswith(post):
                return False
            return syms[0] == o[len(pre) : len(o) - len(post)]
        self._pin()
        return str.__eq__(_plain(self), _plain(other))

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        self._pin()
        return str.__hash__(_plain(self))

    def __str__(self):
        return self

    def __format__(self, spec):
        if not spec:
            return self
        self._pin()
        return str.__format__(_plain(self), spec)

    def __bool__(self):
        return len(_plain(self)) > 0

    def strip(self, *a):
        s = _plain(self)
        if not a and s.strip() == s:
            return self
        self._pin()
        return s.strip(*a)

    def __reduce__(self):
        return (str, (_plain(self),))

    def __deepcopy__(self, memo):
        return self


def pin_text(p):
    if isinstance(p, SymDec):
        ENGINE.pin(p.num)
    elif isinstance(p, SymRope):
        p._pin()
    elif isinstance(p, (SymStrBase, SymIntBase)):
        ENGINE.pin(p)


def _mk_rope_pinned(name):
    native = getattr(str, name)

    def f(self, *a, **k):
        self._pin()
        return native(_plain(self), *a, **k)

    f.__name__ = name
    return f


class SymJson(Sym, str):
    """json.dumps of a document that holds symbolic values."""

    def __new__(cls, text, tree):
        self = str.__new__(cls, text)
        self.tree = tree
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return self

    def __format__(self, spec):
        return self if not spec else str.__format__(_plain(self), spec)

    def __eq__(self, other):
        if self is other:
            return True
        if isinstance(other, SymJson):
            return strict_equal(self.tree, other.tree)
        if isinstance(other, str):
            return str.__eq__(_plain(self), _plain(other))
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return str.__hash__(_plain(self))

    def __reduce__(self):
        return (str, (_plain(self),))


for _name in _PINNED:
    setattr(SymRope, _name, _mk_rope_pinned(_name))


# numbers of the virtual clock: exact multiples of 1/1024 s


class SymTime(Sym, float):
    def __new__(cls, term, ticks: int):
        self = float.__new__(cls, ticks / 1024.0)
        self.t = term  # integer number of 1/1024 s ticks
        self.ticks = ticks
        return self

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def _split(other):
        if isinstance(other, SymTime):
            return other.t, other.ticks
        x = other * 1024
        n = int(x)
        if n != x:
            # finer than a tick (e.g. the loop's clock resolution)
            import math

            n = math.ceil(x) if x > 0 else math.floor(x)
        return const(n), n

    def __add__(self, other):
        if isinstance(other, (int, float)):
            if isinstance(other, float) and not isinstance(other, SymTime) and abs(other) < 1e-6:
                return self
            t, n = self._split(other)
            return SymTime(self.t + t, self.ticks + n)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, other):
        if isinstance(other, (int, float)):
            t, n = self._split(other)
            return SymTime(self.t - t, self.ticks - n)
        return NotImplemented

    def __rsub__(self, other):
        if isinstance(other, (int, float)):
            t, n = self._split(other)
            return SymTime(t - self.t, n - self.ticks)
        return NotImplemented

    def _cmp(self, other, op):
        if isinstance(other, (int, float)):
            if self is other:
                return _OPS[op](0, 0)
            t, n = self._split(other)
            return ENGINE.branch(_OPS[op](self.t, t), _OPS[op](self.ticks, n))
        return NotImplemented

    def __hash__(self):
        return float.__hash__(float.__add__(self, 0.0))

    def __bool__(self):
        return ENGINE.branch(self.t != 0, self.ticks != 0)

    def __repr__(self):
        return float.__repr__(float.__add__(self, 0.0))

    def __reduce__(self):
        return (float, (float(self.ticks) / 1024.0,))


for _name in _OPS:
    setattr(SymTime, f"__{_name}__", _mk_cmp(_name, float))


# doubles: exact multiples of 2**-20

FLOAT_UNIT = 1 << 20


class SymFloatBase(Sym):
    group = "float"

    def __new__(cls, term, units: int):
        self = float.__new__(cls, units / FLOAT_UNIT)
        self.t = term
        self.units = units
        self._pinned = False
        return self

    def c_code(self):
        return self.units

    def c(self):
        return self.units / FLOAT_UNIT

    def native(self):
        return self.c()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _cmp(self, other, op):
        if self is other:
            return _OPS[op](0, 0)
        if isinstance(other, SymFloatBase):
            return ENGINE.branch(_OPS[op](self.t, other.t), _OPS[op](self.units, other.units))
        if isinstance(other, SymIntBase):
            return ENGINE.branch(_OPS[op](self.t, other.t * FLOAT_UNIT), _OPS[op](self.units, other.c() * FLOAT_UNIT))
        if isinstance(other, float):
            x = float.__add__(other, 0.0)
            if x != x or x in (float("inf"), float("-inf")):
                return _OPS[op](self.c(), x)
            num, den = x.as_integer_ratio()
        elif isinstance(other, int):
            num, den = int.__index__(other), 1
        else:
            return NotImplemented
        return ENGINE.branch(_OPS[op](self.t * den, const(num * FLOAT_UNIT)), _OPS[op](self.units * den, num * FLOAT_UNIT))

    def __bool__(self):
        return ENGINE.branch(self.t != 0, self.units != 0)

    def __hash__(self):
        ENGINE.pin(self)
        return float.__hash__(self.c())

    def __repr__(self):
        return repr(self.native())

    def __str__(self):
        ENGINE.pin(self)
        return str(self.native())

    def __format__(self, spec):
        ENGINE.pin(self)
        return format(self.native(), spec)

    def __neg__(self):
        return type(self)(const(0) - self.t, -self.units)

    def __abs__(self):
        return -self if self < type(self)(const(0), 0) else self

    def __sub__(self, other):
        if type(other) is type(self):
            return type(self)(self.t - other.t, self.units - other.units)
        ENGINE.pin(self)
        return self.native() - (other.native() if isinstance(other, SymFloatBase) else other)

    def __add__(self, other):
        if type(other) is type(self):
            return type(self)(self.t + other.t, self.units + other.units)
        ENGINE.pin(self)
        return self.native() + (other.native() if isinstance(other, SymFloatBase) else other)

    def __reduce__(self):
        return (float, (self.c(),))


class SymPyFloat(SymFloatBase, float):
    pass


class SymCelDouble(SymFloatBase, celtypes.DoubleType):
    def native(self):
        return celtypes.DoubleType(self.c())

    def _cmp(self, other, op):
        if isinstance(other, float):
            return SymFloatBase._cmp(self, other, op)
        return NotImplemented  # celtypes.DoubleType: "no such overload"


def _mk_float_pinned(name):
    def f(self, *a):
        ENGINE.pin(self)
        for x in a:
            if isinstance(x, Sym):
                ENGINE.pin(x)
        return getattr(self.native(), name)(*[x.native() if isinstance(x, SymFloatBase) else x for x in a])

    f.__name__ = name
    return f


for _name in ("mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod", "pow", "rpow", "divmod", "rdivmod",
              "radd", "rsub", "float", "int", "trunc", "round", "floor", "ceil"):
    setattr(SymFloatBase, f"__{_name}__", _mk_float_pinned(f"__{_name}__"))
for _name in ("is_integer", "as_integer_ratio", "hex"):
    setattr(SymFloatBase, _name, _mk_float_pinned(_name))
for _name in _OPS:
    setattr(SymPyFloat, f"__{_name}__", _mk_cmp(_name, float))
    setattr(SymCelDouble, f"__{_name}__", _mk_cmp(_name, celtypes.DoubleType))
SymPyFloat.__hash__ = SymCelDouble.__hash__ = SymFloatBase.__hash__


# --------------------------------------------------------------------------


def deepcopy_plain(v):
    """Concrete JSON-like copy (for reports)."""
    if isinstance(v, dict):
        return {deepcopy_plain(k): deepcopy_plain(x) for k, x in dict.items(v)}
    if isinstance(v, (list, tuple)):
        return [deepcopy_plain(x) for x in list(v)]
    if isinstance(v, celtypes.BoolType):
        return bool(int.__index__(v))
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, str):
        return _plain(v)
    if isinstance(v, int):
        return int.__add__(int.__index__(v), 0)
    if isinstance(v, SymFloatBase):
        return v.c()
    if isinstance(v, float):
        return float.__add__(v, 0.0)
    return v


def _kind(v):
    if v is None or isinstance(v, celtypes.NullType):
        return "null"
    if isinstance(v, (bool, celtypes.BoolType)):
        return "bool"
    if isinstance(v, (int, float)):
        return "num"
    if isinstance(v, str):
        return "str"
    if isinstance(v, dict):
        return "map"
    if isinstance(v, (list, tuple)):
        return "list"
    return f"?{type(v).__name__}"


def strict_equal(a, b) -> bool:
    """JSON equality: types matter (bool is not a number), maps unordered.
    Comparisons of symbolic leaves branch."""
    ka, kb = _kind(a), _kind(b)
    if ka != kb:
        return False
    if ka == "null":
        return True
    if ka == "bool":
        return bool(a) == bool(b)
    if ka == "map":
        if len(a) != len(b):
            return False
        for k, v in dict.items(a):
            if not dict.__contains__(b, k):
                return False
            if not strict_equal(v, dict.__getitem__(b, k)):
                return False
        return True
    if ka == "list":
        if len(a) != len(b):
            return False
        return all(strict_equal(x, y) for x, y in zip(list(a), list(b)))
    if ka.startswith("?"):
        return a is b
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return deepcopy_plain(a) == deepcopy_plain(b)
    if isinstance(a, SymFloatBase) or isinstance(b, SymFloatBase):
        return bool(SymFloatBase._cmp(a, b, "eq") if isinstance(a, SymFloatBase) else SymFloatBase._cmp(b, a, "eq"))
    if isinstance(a, Sym):
        return bool(a == b) if not isinstance(a, SymCelInt) else bool(SymIntBase._cmp(a, b, "eq"))
    return bool(b == a) if not isinstance(b, SymCelInt) else bool(SymIntBase._cmp(b, a, "eq"))
