"""Run-time support for instrumented code, and symbol-preserving versions of the
few C-implemented conversions koreo and celpy apply to data."""
from __future__ import annotations

import copy
import json
import types

from celpy import celtypes
import celpy

from .core import (
    ENGINE,
    Sym,
    SymCelDouble,
    SymCelInt,
    SymCelStr,
    SymDec,
    SymFloatBase,
    SymIntBase,
    SymJson,
    SymPyFloat,
    SymPyInt,
    SymPyStr,
    SymRope,
    SymStrBase,
    deepcopy_plain,
    _plain,
)

_CFUNC = (types.BuiltinFunctionType, types.MethodDescriptorType, types.WrapperDescriptorType, type)

_text_hooks = []  # installed by sx.chars: symbolic character strings


def sx_in(a, b):
    if _text_hooks and isinstance(a, Sym):
        from . import chars

        return chars.sx_in(a, b)
    return a in b


def sx_item(a, k):
    if _text_hooks and isinstance(k, Sym):
        from . import chars

        return chars.sx_item(a, k)
    return a[k]


def _join(sep, items):
    items = list(items)
    if not any(isinstance(x, Sym) for x in items):
        return str.join(sep, items)
    if len(items) == 1:
        return items[0]
    parts = []
    for i, x in enumerate(items):
        if i and sep:
            parts.append(_plain(sep))
        parts.append(x)
    return SymRope(parts)


def sx_call(f, /, *a, **k):
    if type(f) is types.BuiltinMethodType and f.__name__ == "join" and len(a) == 1 and isinstance(f.__self__, str):
        if not _text_hooks:
            return _join(f.__self__, a[0])
        from . import chars

        return chars.join(f.__self__, a[0])
    for x in a:
        if isinstance(x, Sym):
            break
    else:
        if _text_hooks and isinstance(f, types.BuiltinFunctionType):
            for hook in _text_hooks:
                r = hook(f, a, k)
                if r is not None:
                    return r[0]
        return f(*a, **k)
    if _text_hooks:
        for hook in _text_hooks:
            r = hook(f, a, k)
            if r is not None:
                return r[0]
    if f is int and len(a) == 1:
        x = a[0]
        if isinstance(x, SymIntBase):
            return SymPyInt(x.t, x.c())
        if isinstance(x, SymDec):
            return SymPyInt(x.num.t, x.num.c())
    elif f is str and len(a) == 1:
        return a[0].__str__() if not isinstance(a[0], float) else str(a[0])
    elif f is float or f is int:
        x = a[0]
        if f is float and isinstance(x, SymFloatBase):
            return SymPyFloat(x.t, x.units)
        if isinstance(x, (SymIntBase, SymStrBase, SymFloatBase)):
            ENGINE.pin(x)
    return f(*a, **k)


def sx_fmt(value, conversion, spec):
    if conversion == 114:
        value = repr(value)
    elif conversion == 115:
        value = str(value)
    elif conversion == 97:
        value = ascii(value)
    return format(value, spec)


def sx_fstr(*parts):
    if len(parts) == 1:
        return parts[0]
    for hook in _text_hooks:
        r = hook(sx_fstr, parts, {})
        if r is not None:
            return r[0]
    for p in parts:
        if isinstance(p, Sym):
            return SymRope(parts)
    return "".join([_plain(p) if type(p) is not str else p for p in parts])


# ------------------------------------------------------------------ json

_dumps, _loads = json.dumps, json.loads


def _has_sym(v):
    if isinstance(v, Sym):
        return True
    if isinstance(v, dict):
        return any(_has_sym(k) or _has_sym(x) for k, x in dict.items(v))
    if isinstance(v, (list, tuple)):
        return any(_has_sym(x) for x in list(v))
    return False


def _json_tree(v):
    """The document json would see: plain containers, symbolic leaves kept."""
    if isinstance(v, dict):
        return {_json_tree(k): _json_tree(x) for k, x in dict.items(v)}
    if isinstance(v, (list, tuple)):
        return [_json_tree(x) for x in list(v)]
    if isinstance(v, SymIntBase):
        return SymPyInt(v.t, v.c())
    if isinstance(v, SymStrBase):
        return SymPyStr(v.t, v.c(), v.domain)
    if isinstance(v, SymFloatBase):
        return SymPyFloat(v.t, v.units)
    return v


def _dump_ready(v):
    if isinstance(v, dict):
        return {_dump_ready(k): _dump_ready(x) for k, x in dict.items(v)}
    if isinstance(v, (list, tuple)):
        return [_dump_ready(x) for x in list(v)]
    if isinstance(v, Sym):
        return deepcopy_plain(v)
    return v


def dumps(obj, *a, **k):
    if ENGINE.active and _has_sym(obj):
        text = _dumps(_dump_ready(obj), *a, **k)
        tree = _json_tree(obj)
        if isinstance(tree, dict) and any(isinstance(x, Sym) for x in tree):
            pass
        return SymJson(text, tree)
    return _dumps(obj, *a, **k)


def loads(s, *a, **k):
    if isinstance(s, SymJson):
        return copy.deepcopy(s.tree)
    if isinstance(s, (SymStrBase,)):
        ENGINE.pin(s)
        s = _plain(s)
    return _loads(s, *a, **k)


# ------------------------------------------------------------------ celtypes


def patch_constructors():
    json.dumps, json.loads = dumps, loads

    dt_new = celtypes.DoubleType.__new__
    st_new = celtypes.StringType.__new__
    it_new = celtypes.IntType.__new__

    def string_new(cls, source, *a, **k):
        if isinstance(source, Sym) and cls is celtypes.StringType:
            if isinstance(source, SymCelStr):
                return source
            if isinstance(source, SymPyStr):
                return SymCelStr(source.t, source.c(), source.domain)
        return st_new(cls, source, *a, **k)

    def int_new(cls, source, *a, **k):
        if isinstance(source, SymIntBase) and cls is celtypes.IntType:
            if not -(2**63) <= source.c() < 2**63:
                raise ValueError("overflow")
            return SymCelInt(source.t, source.c())
        return it_new(cls, source, *a, **k)

    def double_new(cls, source, *a, **k):
        if isinstance(source, SymFloatBase) and cls is celtypes.DoubleType:
            return SymCelDouble(source.t, source.units)
        return dt_new(cls, source, *a, **k)

    celtypes.DoubleType.__new__ = staticmethod(double_new)
    celtypes.StringType.__new__ = staticmethod(string_new)
    celtypes.IntType.__new__ = staticmethod(int_new)

    # Compiling the same expression text yields the same (never mutated) tree;
    # memoised because a run compiles the same definitions thousands of times.
    env_compile = celpy.Environment.compile
    memo = {}

    def compile_(self, text):
        if type(text) is not str:
            return env_compile(self, text)
        hit = memo.get(text)
        if hit is None:
            try:
                hit = (True, env_compile(self, text))
            except celpy.CELParseError as err:
                hit = (False, err)
            if len(memo) > 20000:
                memo.clear()
            memo[text] = hit
        if hit[0]:
            return hit[1]
        raise hit[1].with_traceback(None)

    celpy.Environment.compile = compile_
