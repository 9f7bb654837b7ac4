"""What a harness sees.  The same harness runs symbolically (SymProvider) and
natively on uninstrumented koreo (ConcreteProvider) when a model is replayed."""
from __future__ import annotations

from .terms import And
from celpy import celtypes

from .core import (
    ENGINE,
    PathEnd,
    FLOAT_UNIT,
    SymCelDouble,
    SymCelInt,
    SymCelStr,
    SymPyFloat,
    SymPyInt,
    SymPyStr,
    SymTime,
    Violated,
    code_of,
    deepcopy_plain,
    text_of,
)


_CHOICE = {}


def _default_text(name):
    return name.replace("#", "-").replace(":t", "")


class Base:
    symbolic = False

    def __init__(self, prop):
        self.prop = prop
        self.reset()

    def reset(self):
        self.tags = set()
        self.checks = 0
        self.trace = []
        self.sample = {}

    # -- verdicts
    def check(self, cond, key, detail=None):
        """The property's assertion.  `cond` has been computed from symbolic
        values by branching, so on this path it is settled."""
        self.checks += 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violated(self.prop, key, detail)

    def fail(self, key, detail=None):
        self.check(False, key, detail)

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def reach(self, tag):
        self.tags.add(tag)

    def observe(self, *values):
        self.trace.append(repr(deepcopy_plain(list(values))))

    def note(self, **kw):
        for k, v in kw.items():
            self.sample[k] = deepcopy_plain(v)

    # -- derived inputs
    def flag(self, name):
        return self.choice(name, (False, True))

    def leaf(self, name, kinds=("text", "int", "bool"), cel=False):
        kind = self.choice(f"{name}.kind", kinds)
        return self.leaf_of(name, kind, cel)

    def leaf_of(self, name, kind, cel=False):
        if kind == "text":
            return self.text(name, cel=cel)
        if kind == "empty":
            return celtypes.StringType("") if cel else ""
        if kind == "int":
            return self.int(name, cel=cel)
        if kind == "bool":
            v = self.flag(f"{name}.b")
            return celtypes.BoolType(v) if cel else v
        if kind == "true":
            return celtypes.BoolType(True) if cel else True
        if kind == "false":
            return celtypes.BoolType(False) if cel else False
        if kind == "null":
            return None
        if kind == "float":
            return self.double(name, cel=cel)
        if kind == "map":
            return celtypes.MapType({}) if cel else {}
        if kind == "list":
            return celtypes.ListType([]) if cel else []
        raise AssertionError(kind)


class SymProvider(Base):
    symbolic = True

    def _var(self, name):
        name = ENGINE.fresh_name(name)
        return name, ENGINE.var(name)

    def choice(self, name, options):
        options = tuple(options) if not isinstance(options, (list, tuple)) else options
        n = len(options)
        if n == 0:
            raise PathEnd()
        if n == 1:
            return options[0]
        name = ENGINE.fresh_name(f"{name}/{n}")
        conds = _CHOICE.get((name, n))
        if conds is None:
            v = ENGINE.var(name)
            conds = _CHOICE[(name, n)] = [And(v >= 0, v < n)] + [v == k for k in range(n - 1)]
        ENGINE.constrain(conds[0])
        val = ENGINE.model.setdefault(name, 0)
        for k in range(n - 1):
            if ENGINE.branch(conds[k + 1], val == k):
                return options[k]
        return options[n - 1]

    def int(self, name, lo=None, hi=None, cel=False):
        name, v = self._var(name + ":i")
        val = ENGINE.model.get(name)
        if val is None:
            val = lo if lo is not None and not (lo <= 7 <= (hi if hi is not None else 7)) else 7
            ENGINE.model[name] = val
        elif (lo is not None and val < lo) or (hi is not None and val > hi):
            val = ENGINE.model[name] = lo if lo is not None else hi
        if lo is not None:
            ENGINE.constrain(v >= lo)
        if hi is not None:
            ENGINE.constrain(v <= hi)
        if lo is None and hi is None:  # JSON integers of the API are int64
            ENGINE.constrain(And(v >= -(2**63), v < 2**63))
        return (SymCelInt if cel else SymPyInt)(v, val)

    def double(self, name, cel=False):
        """A multiple of 2**-20 below 2**32 (exact as a double)."""
        name, v = self._var(name + ":f")
        val = ENGINE.model.get(name)
        if val is None:
            val = ENGINE.model[name] = 5 * FLOAT_UNIT // 2
        ENGINE.constrain(And(v > -(2**52), v < 2**52))
        return (SymCelDouble if cel else SymPyFloat)(v, val)

    def text(self, name, domain=(), cel=False, nonempty=True):
        """An arbitrary text.  `domain`: constants that code may look it up
        among by hash (dict keys, set members)."""
        name, v = self._var(name + ":t")
        val = ENGINE.model.get(name)
        if val is None:
            val = code_of(_default_text(name))
            ENGINE.model[name] = val
        if nonempty:
            ENGINE.constrain(v != code_of(""))
        return (SymCelStr if cel else SymPyStr)(v, text_of(val), tuple(domain))

    def chars(self, name, n, exclude=()):
        """A text of n symbolic characters; the first is none of `exclude`."""
        from . import chars

        chars.install()
        if not n:
            return ""
        return chars.text(name, n, exclude)

    def matches(self, pattern, text):
        from . import chars

        return chars.matches(pattern, text)

    def ticks(self, name, lo, hi):
        """A duration in 1/1024 s, lo..hi seconds."""
        name, v = self._var(name + ":d")
        lo_t, hi_t = int(lo * 1024), int(hi * 1024)
        val = ENGINE.model.get(name)
        if val is None:
            val = lo_t
            ENGINE.model[name] = val
        ENGINE.constrain(And(v >= lo_t, v <= hi_t))
        return SymTime(v, val)


class ConcreteProvider(Base):
    def __init__(self, prop, model):
        self.model = model
        super().__init__(prop)

    def reset(self):
        super().reset()
        self.names = set()

    def _name(self, name):
        if name in self.names:
            i = 2
            while f"{name}#{i}" in self.names:
                i += 1
            name = f"{name}#{i}"
        self.names.add(name)
        return name

    def choice(self, name, options):
        options = tuple(options) if not isinstance(options, (list, tuple)) else options
        n = len(options)
        if n == 0:
            raise PathEnd()
        if n == 1:
            return options[0]
        return options[self.model.get(self._name(f"{name}/{n}"), 0)]

    def int(self, name, lo=None, hi=None, cel=False):
        val = self.model.get(self._name(name + ":i"))
        if val is None:
            val = lo if lo is not None and not (lo <= 7 <= (hi if hi is not None else 7)) else 7
        return celtypes.IntType(val) if cel else val

    def double(self, name, cel=False):
        val = self.model.get(self._name(name + ":f"))
        val = 2.5 if val is None else val / FLOAT_UNIT
        return celtypes.DoubleType(val) if cel else val

    def text(self, name, domain=(), cel=False, nonempty=True):
        name = self._name(name + ":t")
        val = self.model.get(name)
        s = _default_text(name) if val is None else text_of(val)
        return celtypes.StringType(s) if cel else s

    def chars(self, name, n, exclude=()):
        out = []
        for i in range(n):
            code = self.model.get(self._name(f"{name}.{i}:c"))
            out.append(chr(ord("a") + i if code is None else code))
        return "".join(out)

    def matches(self, pattern, text):
        import re

        return re.fullmatch(pattern, text) is not None

    def ticks(self, name, lo, hi):
        val = self.model.get(self._name(name + ":d"))
        return (int(lo * 1024) if val is None else val) / 1024.0
