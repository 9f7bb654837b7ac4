"""Texts whose individual characters are symbolic (code points as integer
variables), for code that inspects text character by character.

Length is concrete; every inspection (`in`, startswith, replace, strip, slicing,
comparison, int()/float() acceptance, regular expressions) branches on a formula
over the code points.  Where such a text is compiled as CEL source, each symbolic
character is classified by what celpy's lexer and escape decoder distinguish in
that position; a character of the class "anything else" is renamed to a private
code point for the lexer (which treats the class uniformly) and becomes the
symbolic character again in the string value celpy makes."""
from __future__ import annotations

import re
import sys
import types

try:
    from re import _constants as sre_c, _parser as sre_p
except ImportError:  # pragma: no cover
    import sre_constants as sre_c
    import sre_parse as sre_p

from celpy import celtypes

from . import core, shim
from .core import ENGINE, Sym, SymDec, SymIntBase, SymCelInt, SymPyInt, SymRope, SymStrBase, _plain
from .terms import And, Not, Or, Node, var

PUA = 0xF0000  # .. 0xFFFFD: excluded from the inputs, used for renaming
_INDEX: dict = {}  # variable name -> renaming index
_BY_INDEX: list = []


def _index(v):
    name = v.args[0]
    i = _INDEX.get(name)
    if i is None:
        i = _INDEX[name] = len(_BY_INDEX)
        _BY_INDEX.append(v)
    return i


class SymChar:
    """One symbolic character of the current path."""

    __slots__ = ("v", "code")

    def __init__(self, v, code):
        self.v, self.code = v, code


def domain(v):
    return And(v >= 0, v <= 0x10FFFF, Or(v < 0xD800, v > 0xDFFF), Or(v < PUA, v > 0xFFFFD))


# ---------------------------------------------------------------- predicates

_RANGES: dict = {}


def ranges_of(name, pred):
    r = _RANGES.get(name)
    if r is None:
        r, start = [], None
        for c in range(0x110000):
            if pred(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                r.append((start, c - 1))
                start = None
        if start is not None:
            r.append((start, 0x10FFFF))
        _RANGES[name] = r
    return r


def inside(ch, ranges):
    """Formula (or bool): the character lies in one of the code-point ranges."""
    if isinstance(ch, SymChar):
        v = ch.v
        return Or(*[(v == a) if a == b else And(v >= a, v <= b) for a, b in ranges])
    return any(a <= ch <= b for a, b in ranges)


def holds(ch, ranges):
    code = ch.code if isinstance(ch, SymChar) else ch
    conc = any(a <= code <= b for a, b in ranges)
    return ENGINE.branch(inside(ch, ranges), conc)


def _chars(s):
    return [c if isinstance(c, SymChar) else c for c in s.parts] if isinstance(s, SymTextBase) else [ord(c) for c in _plain(s)]


def _code(c):
    return c.code if isinstance(c, SymChar) else c


def _eqc(a, b):
    if isinstance(a, SymChar):
        return a.v == (b.v if isinstance(b, SymChar) else b)
    if isinstance(b, SymChar):
        return b.v == a
    return a == b


def equal_formula(xs, ys):
    if len(xs) != len(ys):
        return False
    return And(*[_eqc(a, b) for a, b in zip(xs, ys)])


def same(xs, ys):
    if len(xs) != len(ys):
        return False
    return ENGINE.branch(equal_formula(xs, ys), all(_code(a) == _code(b) for a, b in zip(xs, ys)))


# ------------------------------------------------------- regular expressions


class Unsupported(Exception):
    pass


_CATS = {
    "CATEGORY_DIGIT": ("isdecimal", str.isdecimal, False),
    "CATEGORY_NOT_DIGIT": ("isdecimal", str.isdecimal, True),
    "CATEGORY_SPACE": ("isspace", str.isspace, False),
    "CATEGORY_NOT_SPACE": ("isspace", str.isspace, True),
    "CATEGORY_WORD": ("word", lambda c: c.isalnum() or c == "_", False),
    "CATEGORY_NOT_WORD": ("word", lambda c: c.isalnum() or c == "_", True),
}
_ASCII = {
    "isdecimal": [(48, 57)],
    "isspace": [(9, 13), (32, 32)],
    "word": [(48, 57), (65, 90), (95, 95), (97, 122)],
}


def _cat(ch, cat, flags):
    name, pred, neg = _CATS[str(cat)]
    r = _ASCII[name] if flags & re.ASCII else ranges_of(name, pred)
    f = inside(ch, r)
    return Not(f) if neg else f


def _cases(code, flags):
    if flags & re.IGNORECASE:
        c = chr(code)
        if code < 128:
            return {ord(c.lower()), ord(c.upper())} | ({0x131, 0x130} if c in "iI" and not flags & re.ASCII else set()) | ({0x17F} if c in "sS" and not flags & re.ASCII else set()) | ({0x212A} if c in "kK" and not flags & re.ASCII else set())
        raise Unsupported("ignorecase")
    return {code}


def _item(ch, op, av, flags):
    op = str(op)
    if op == "LITERAL":
        return inside(ch, [(c, c) for c in sorted(_cases(av, flags))])
    if op == "RANGE":
        if flags & re.IGNORECASE:
            a, b = chr(av[0]), chr(av[1])
            if a.isascii() and b.isascii() and (a.isdigit() and b.isdigit()):
                return inside(ch, [av])
            if a.isalpha() and b.isalpha() and a.isascii() and b.isascii():
                return inside(ch, sorted({(ord(a.lower()), ord(b.lower())), (ord(a.upper()), ord(b.upper()))}))
            raise Unsupported("ignorecase range")
        return inside(ch, [av])
    if op == "CATEGORY":
        return _cat(ch, av, flags)
    raise Unsupported(op)


def _one(ch, op, av, flags):
    """Formula: the one-character node matches ch; None if not such a node."""
    o = str(op)
    if o == "LITERAL":
        return _item(ch, op, av, flags)
    if o == "NOT_LITERAL":
        return Not(inside(ch, [(c, c) for c in sorted(_cases(av, flags))]))
    if o == "ANY":
        return True if flags & re.DOTALL else Not(inside(ch, [(10, 10)]))
    if o == "IN":
        neg = av and str(av[0][0]) == "NEGATE"
        f = Or(*[_item(ch, i, a, flags) for i, a in av if str(i) != "NEGATE"])
        return Not(f) if neg else f
    return None


def _ends(nodes, chars, starts, flags):
    """{start position: condition} -> {end position: condition}."""
    n = len(chars)
    cur = starts
    for op, av in nodes:
        o = str(op)
        nxt: dict = {}

        def add(p, c, nxt=nxt):
            if c is False:
                return
            nxt[p] = Or(nxt[p], c) if p in nxt else c

        if o in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            for p, c in cur.items():
                if p < n:
                    add(p + 1, And(c, _one(chars[p], op, av, flags)))
        elif o == "SUBPATTERN":
            group, add_f, del_f, sub = av
            for p, c in _ends(list(sub), chars, cur, (flags | add_f) & ~del_f).items():
                add(p, c)
        elif o in ("ATOMIC_GROUP", "POSSESSIVE_REPEAT", "ASSERT", "ASSERT_NOT", "GROUPREF", "GROUPREF_EXISTS"):
            raise Unsupported(o)
        elif o == "BRANCH":
            for alt in av[1]:
                for p, c in _ends(list(alt), chars, cur, flags).items():
                    add(p, c)
        elif o in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, sub = av
            states = dict(cur)
            if lo == 0:
                for p, c in states.items():
                    add(p, c)
            k = 0
            hi = min(int(hi), n + 1)
            while k < hi and states:
                states = _ends(list(sub), chars, states, flags)
                k += 1
                if k >= lo:
                    for p, c in states.items():
                        add(p, c)
                if k > lo + n:
                    break
        elif o == "AT":
            for p, c in cur.items():
                w = str(av)
                if w in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                    if w == "AT_BEGINNING" and flags & re.MULTILINE:
                        raise Unsupported(w)
                    if p == 0:
                        add(p, c)
                elif w == "AT_END_STRING":
                    if p == n:
                        add(p, c)
                elif w == "AT_END":
                    if flags & re.MULTILINE:
                        raise Unsupported(w)
                    if p == n:
                        add(p, c)
                    elif p == n - 1:
                        add(p, And(c, inside(chars[p], [(10, 10)])))
                else:
                    raise Unsupported(w)
        else:
            raise Unsupported(o)
        cur = nxt
    return cur


_PARSED: dict = {}


def _parse(pattern, flags):
    key = (pattern, flags)
    p = _PARSED.get(key)
    if p is None:
        tree = sre_p.parse(pattern, flags)
        p = _PARSED[key] = (list(tree), tree.state.flags)
    return p


def language(pattern, chars, flags=0, how="fullmatch"):
    """Formula: the characters belong to the pattern's language."""
    nodes, flags = _parse(pattern, flags)
    if how == "search":
        starts = {i: True for i in range(len(chars) + 1)}
    else:
        starts = {0: True}
    ends = _ends(nodes, chars, starts, flags)
    if how == "fullmatch":
        return ends.get(len(chars), False)
    return Or(*ends.values())


PY_INT = r"\s*[+-]?\d+(?:_\d+)*\s*"
_D = r"\d+(?:_\d+)*"
PY_FLOAT = rf"\s*[+-]?(?:[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]|(?:{_D}\.?(?:{_D})?|\.{_D})(?:[eE][+-]?{_D})?)\s*"


class LazyMatch:
    """Truth decided symbolically; positions are those of this path (pinned)."""

    def __init__(self, text, pattern, flags, how):
        self._a = (text, pattern, flags, how)
        self._m = None

    def __bool__(self):
        return True

    def _real(self):
        if self._m is None:
            text, pattern, flags, how = self._a
            text._pin()
            self._m = getattr(re.compile(pattern, flags), how)(_plain(text))
        return self._m

    def __getattr__(self, name):
        return getattr(self._real(), name)

    def __getitem__(self, i):
        return self._real()[i]


def _re_call(pattern, flags, how, text):
    try:
        f = language(pattern, _chars(text), flags, how)
    except Unsupported:
        text._pin()
        return getattr(re.compile(pattern, flags), how)(_plain(text))
    conc = getattr(re.compile(pattern, flags), how)(_plain(text)) is not None
    return LazyMatch(text, pattern, flags, how) if ENGINE.branch(f, conc) else None


# ------------------------------------------------------------------- texts


class SymTextBase(Sym):
    group = "chars"

    def c(self):
        return _plain(self)

    def _pin(self):
        for ch in self.parts:
            if isinstance(ch, SymChar) and ENGINE.active:
                c = ch.v == ch.code
                if c is not True and c not in ENGINE.decided:
                    ENGINE.pins += 1
                    ENGINE.record(c, True, flippable=False)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, str):
            return False
        return same(self.parts, _other(other))

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        # Sets and dicts decide membership by hash: settle (as branches) how this
        # text relates to every symbolic text hashed before.
        if ENGINE.active:
            for o in ENGINE.hashed:
                if isinstance(o, SymTextBase):
                    if o is self or o.parts == self.parts:
                        break
                    same(self.parts, o.parts)
            else:
                ENGINE.hashed.append(self)
        return str.__hash__(_plain(self))

    def __bool__(self):
        return len(self.parts) != 0

    def __str__(self):
        return SymPyText(self.parts)

    def __repr__(self):
        return str.__repr__(_plain(self))

    def __format__(self, spec):
        if not spec:
            return SymPyText(self.parts)
        self._pin()
        return str.__format__(_plain(self), spec)

    def __reduce__(self):
        return (str, (_plain(self),))

    def __iter__(self):
        for c in self.parts:
            yield make([c])

    def __getitem__(self, k):
        r = self.parts[k]
        return make(r if isinstance(r, list) else [r])

    def __add__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return make(self.parts + _other(other), type(self))

    def __radd__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return make(_other(other) + self.parts, celtypes.StringType if isinstance(other, celtypes.StringType) else str)

    def __contains__(self, other):
        o = _other(other)
        n, k = len(self.parts), len(o)
        return ENGINE.branch(
            Or(*[equal_formula(self.parts[i : i + k], o) for i in range(n - k + 1)]),
            str.__contains__(_plain(self), _plain(other)),
        )

    def startswith(self, p, start=0, end=None):
        xs = self.parts[start:end]
        for q in p if isinstance(p, tuple) else (p,):
            o = _other(q)
            if same(xs[: len(o)], o):
                return True
        return False

    def endswith(self, p, start=0, end=None):
        xs = self.parts[start:end]
        for q in p if isinstance(p, tuple) else (p,):
            o = _other(q)
            if not o or same(xs[-len(o):], o):
                return True
        return False

    def removeprefix(self, p):
        return make(self.parts[len(p):]) if p and self.startswith(p) else self

    def removesuffix(self, p):
        return make(self.parts[: -len(p)]) if p and self.endswith(p) else self

    def find(self, sub, start=0, end=None):
        o, xs = _other(sub), self.parts
        end = len(xs) if end is None else min(end, len(xs))
        for i in range(start, end - len(o) + 1):
            if same(xs[i : i + len(o)], o):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        k, i, o = 0, 0, _other(sub)
        if not o or a:
            self._pin()
            return str.count(_plain(self), sub, *a)
        while i + len(o) <= len(self.parts):
            if same(self.parts[i : i + len(o)], o):
                k, i = k + 1, i + len(o)
            else:
                i += 1
        return k

    def replace(self, old, new, count=-1):
        o, w, xs, out, i = _other(old), _other(new), self.parts, [], 0
        if not o:
            self._pin()
            return str.replace(_plain(self), old, new, count)
        while i < len(xs):
            if count and i + len(o) <= len(xs) and same(xs[i : i + len(o)], o):
                out.extend(w)
                i += len(o)
                count -= 1
            else:
                out.append(xs[i])
                i += 1
        return make(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            self._pin()
            return str.split(_plain(self), sep, maxsplit)
        o, xs, out, cur, i = _other(sep), self.parts, [], [], 0
        while i < len(xs):
            if maxsplit and i + len(o) <= len(xs) and same(xs[i : i + len(o)], o):
                out.append(make(cur))
                cur = []
                i += len(o)
                maxsplit -= 1
            else:
                cur.append(xs[i])
                i += 1
        return out + [make(cur)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (make(self.parts[:i]), sep, make(self.parts[i + len(sep):]))

    def _strip(self, chars, left, right):
        xs = list(self.parts)
        r = ranges_of("isspace", str.isspace) if chars is None else [(ord(c), ord(c)) for c in chars]
        while left and xs and holds(xs[0], r):
            xs.pop(0)
        while right and xs and holds(xs[-1], r):
            xs.pop()
        return self if len(xs) == len(self.parts) else make(xs)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def translate(self, table):
        out = []
        for c in self.parts:
            if isinstance(c, SymChar):
                for k, w in dict.items(table):
                    if ENGINE.branch(c.v == k, c.code == k):
                        out.extend([] if w is None else [w] if isinstance(w, int) else _other(w))
                        break
                else:
                    out.append(c)
            else:
                out.extend(_other(str.translate(chr(c), table)))
        return make(out)

    def join(self, items):
        return join(self, items)

    def __mul__(self, n):
        return make(self.parts * n)

    def __lt__(self, other):
        return _less(self.parts, _other(other), False)

    def __le__(self, other):
        return _less(self.parts, _other(other), True)

    def __gt__(self, other):
        return not _less(self.parts, _other(other), True)

    def __ge__(self, other):
        return not _less(self.parts, _other(other), False)

    def __rmod__(self, other):
        self._pin()
        return str.__mod__(other, _plain(self))


def _less(xs, ys, or_equal):
    for a, b in zip(xs, ys):
        if ENGINE.branch(_eqc(a, b), _code(a) == _code(b)):
            continue
        la = a.v if isinstance(a, SymChar) else core.const(a)
        lb = b.v if isinstance(b, SymChar) else b
        return ENGINE.branch(la < lb, _code(a) < _code(b))
    return len(xs) < len(ys) or (or_equal and len(xs) == len(ys))


def _other(s):
    """A text as characters."""
    if isinstance(s, SymTextBase):
        return s.parts
    if isinstance(s, SymRope):
        return [c for p in s.parts for c in _other(p)]
    if isinstance(s, SymDec):
        ENGINE.pin(s.num)
    elif isinstance(s, SymStrBase):
        ENGINE.pin(s)
    return [ord(c) for c in _plain(s)]


def _each(name, pred):
    def f(self):
        if not self.parts:
            return False
        r = ranges_of(name, pred)
        return all([holds(c, r) for c in self.parts])

    return f


for _n in ("isdecimal", "isdigit", "isnumeric", "isspace", "isalpha", "isalnum", "isascii", "isprintable"):
    setattr(SymTextBase, _n, _each(_n, getattr(str, _n)))


def _pinned(name):
    native = getattr(str, name)

    def f(self, *a, **k):
        self._pin()
        return native(_plain(self), *a, **k)

    return f


def _recased(name):
    native = getattr(str, name)
    changed = lambda c: native(c) != c

    def f(self):
        out = []
        for ch in self.parts:
            c = chr(_code(ch))
            if not isinstance(ch, SymChar):
                out.extend(map(ord, native(c)))
            elif not holds(ch, ranges_of(f"{name}-changes", changed)):
                out.append(ch)
            elif holds(ch, [(65, 90), (97, 122)]):
                d = ord(native(c)) - ch.code
                out.append(SymChar(ch.v + d, ch.code + d))
            else:  # beyond ASCII: this very character
                ENGINE.pins += 1
                ENGINE.record(ch.v == ch.code, True, flippable=False)
                out.extend(map(ord, native(c)))
        return make(out)

    return f


for _n in ("lower", "upper", "casefold"):
    setattr(SymTextBase, _n, _recased(_n))

for _n in (
    "rsplit encode rfind rindex rpartition casefold title zfill splitlines format "
    "capitalize center expandtabs isidentifier islower isupper istitle ljust rjust swapcase __mod__"
).split():
    setattr(SymTextBase, _n, _pinned(_n))


def _new(cls, parts):
    self = str.__new__(cls, "".join([chr(_code(c)) for c in parts]))
    self.parts = list(parts)
    return self


class SymPyText(SymTextBase, str):
    __new__ = _new


class SymCelText(SymTextBase, celtypes.StringType):
    __new__ = _new


for _cls in (SymPyText, SymCelText):
    for _n, _f in list(vars(SymTextBase).items()):
        if _n not in ("__module__", "__dict__", "__weakref__", "__doc__", "__slots__", "__new__"):
            setattr(_cls, _n, _f)


def make(parts, like=str):
    parts = list(parts)
    cel = issubclass(like, celtypes.StringType)
    if any(isinstance(c, SymChar) for c in parts):
        return (SymCelText if cel else SymPyText)(parts)
    s = "".join(map(chr, parts))
    return celtypes.StringType(s) if cel else s


def join(sep, items):
    items = list(items)
    if not any(isinstance(x, (SymTextBase,)) for x in items) and not isinstance(sep, SymTextBase):
        return shim._join(sep, items)
    if any(isinstance(x, (SymRope, SymDec)) for x in items):
        parts = []
        for i, x in enumerate(items):
            if i and sep:
                parts.append(sep)
            parts.append(x)
        return SymRope(parts)
    out, o = [], _other(sep)
    for i, x in enumerate(items):
        if i:
            out.extend(o)
        out.extend(_other(x))
    return make(out)


def text(name, n, exclude=()):
    """n symbolic characters (no surrogates, no private plane 15)."""
    parts = []
    for i in range(n):
        nm = ENGINE.fresh_name(f"{name}.{i}:c")
        v = var(nm)
        code = ENGINE.model.get(nm)
        if code is None:
            code = ENGINE.model[nm] = ord("a") + i
        ENGINE.constrain(domain(v))
        parts.append(SymChar(v, code))
    if n and exclude:
        ENGINE.constrain(Not(inside(parts[0], [(ord(c), ord(c)) for c in exclude])))
    return SymPyText(parts)


def matches(pattern, s, flags=0):
    """Language membership of a text, by the solver (native for a plain one)."""
    if isinstance(s, SymTextBase):
        return ENGINE.branch(language(pattern, _chars(s), flags), re.fullmatch(pattern, _plain(s), flags) is not None)
    return re.fullmatch(pattern, s, flags) is not None


# ----------------------------------------------------- C functions, operators


def _hook(f, a, k):
    if type(f) is types.BuiltinMethodType or type(f) is types.BuiltinFunctionType:
        owner = f.__self__
        name = f.__name__
        if isinstance(owner, str) and not isinstance(owner, Sym):
            if name == "join" and len(a) == 1:
                return (join(owner, a[0]),)
            t = [x for x in a if isinstance(x, SymTextBase)]
            if t:
                if name in ("startswith", "endswith", "__contains__", "find", "index", "count", "replace", "split", "partition", "removeprefix", "removesuffix", "__eq__", "__ne__", "__add__"):
                    return (getattr(SymPyText([ord(c) for c in _plain(owner)]), name)(*a, **k),)
                for x in t:
                    x._pin()
                return (f(*[_plain(x) if isinstance(x, SymTextBase) else x for x in a], **k),)
            return None
        if isinstance(owner, dict) and name in ("get", "pop", "setdefault", "__getitem__", "__contains__") and a and isinstance(a[0], SymTextBase):
            key = _key_in(a[0], owner)
            return (f(*([key] if key is not None else [a[0]]), *a[1:], **k),)
        if isinstance(owner, re.Pattern) and a and isinstance(a[0], SymTextBase):
            if name in ("match", "fullmatch", "search") and len(a) == 1:
                return (_re_call(owner.pattern, owner.flags & ~re.UNICODE, name, a[0]),)
            a[0]._pin()
            return (f(_plain(a[0]), *a[1:], **k),)
        if isinstance(owner, re.Pattern) and name == "sub" and len(a) > 1 and isinstance(a[1], SymTextBase):
            return (_sub(owner, a[0], a[1]),)
    if not any(isinstance(x, SymTextBase) for x in a):
        if f is shim.sx_fstr:
            return None
        return None
    if f is shim.sx_fstr:
        return (join("", a),)
    if f is str and len(a) == 1:
        return (SymPyText(a[0].parts),)
    if f is int or f is float:
        x = a[0]
        if len(a) > 1 or k:
            x._pin()
            return (f(_plain(x), *a[1:], **k),)
        pat = PY_INT if f is int else PY_FLOAT
        if not matches(pat, x):
            raise ValueError(f"could not convert: {_plain(x)!r}")
        return (_number(f, x),)
    if f is ord and len(a) == 1:
        c = a[0].parts
        if len(c) == 1 and isinstance(c[0], SymChar):
            return (SymPyInt(c[0].v, c[0].code),)
        return None
    if f in (re.match, re.fullmatch, re.search) and len(a) >= 2 and isinstance(a[1], SymTextBase):
        pat = a[0].pattern if isinstance(a[0], re.Pattern) else a[0]
        flags = (a[0].flags & ~re.UNICODE) if isinstance(a[0], re.Pattern) else int(a[2] if len(a) > 2 else k.get("flags", 0))
        return (_re_call(pat, flags, f.__name__, a[1]),)
    if f is re.sub and len(a) >= 3 and isinstance(a[2], SymTextBase):
        return (_sub(re.compile(a[0]), a[1], a[2]),)
    if f is repr or f is ascii:
        a[0]._pin()
        return (f(_plain(a[0])),)
    if f in (any, all, len, bool, list, tuple, set, dict, isinstance, id, type, sorted, iter, hash, enumerate, zip, min, max, reversed, map, filter):
        return None
    if type(f) is types.BuiltinFunctionType and f.__module__ not in ("builtins", None) or getattr(f, "__module__", "") in ("re", "unicodedata", "shlex", "html", "ast", "decimal", "fractions"):
        for x in a:
            if isinstance(x, SymTextBase):
                x._pin()
        return (f(*[_plain(x) if isinstance(x, SymTextBase) else x for x in a], **k),)
    return None


def _number(f, x):
    """The value int()/float() gives is only known for pinned characters."""
    try:
        return f(_plain(x))
    finally:
        pass


def _sub(pattern, repl, text):
    """Single-character patterns are followed; others are pinned."""
    nodes, flags = _parse(pattern.pattern, pattern.flags & ~re.UNICODE)
    if len(nodes) == 1 and str(nodes[0][0]) == "SUBPATTERN":
        nodes = list(nodes[0][1][3])
    if len(nodes) == 1 and (callable(repl) or "\\" not in repl.replace("\\\\", "")):
        out = []
        try:
            for c in text.parts:
                cond = _one(c, nodes[0][0], nodes[0][1], flags)
                if cond is None:
                    raise Unsupported
                if ENGINE.branch(cond, pattern.fullmatch(chr(_code(c))) is not None):
                    if callable(repl):
                        out.extend(_other(repl(_CharMatch(make([c])))))
                    else:
                        out.extend(_other(repl.replace("\\\\", "\\")))
                else:
                    out.append(c)
            return make(out)
        except Unsupported:
            pass
    text._pin()
    return pattern.sub(repl, _plain(text))


class _CharMatch:
    def __init__(self, s):
        self.s = s
        self.string = s

    def group(self, *a):
        return self.s

    __getitem__ = group

    def groups(self, default=None):
        return (self.s,)


def _key_in(s, mapping):
    """The key of the mapping the text equals (branching), or None."""
    for k in list(dict.keys(mapping)):
        if isinstance(k, str) and len(k) == len(s.parts) and s == k:
            return k
    return None


def sx_in(a, b):
    if isinstance(a, SymTextBase):
        if isinstance(b, SymTextBase):
            return a in b
        if isinstance(b, str):
            o = _other(b)
            n = len(a.parts)
            if n == 1:
                return holds(a.parts[0], [(c, c) for c in sorted(set(o))])
            return ENGINE.branch(
                Or(*[equal_formula(o[i : i + n], a.parts) for i in range(len(o) - n + 1)]), str.__contains__(_plain(b), _plain(a))
            )
        if isinstance(b, dict):
            return _key_in(a, b) is not None
        if isinstance(b, (set, frozenset)):
            return any([a == k for k in b if isinstance(k, str) and len(k) == len(a.parts)])
    return a in b


def sx_item(a, k):
    """`a[k]` with a symbolic text as key."""
    if isinstance(k, SymTextBase) and isinstance(a, dict):
        key = _key_in(k, a)
        return a[key if key is not None else k]
    return a[k]


# --------------------------------------------------------- CEL source texts

_BASIC = (0x22, 0x5C, 0x0A, 0x0D)  # " \ newline return
_SINGLE = (0x27,)
_TOKENS = [ord(c) for c in "\"'\\\n\r\t\f\v \x00()[]{}.,:;?!<>=&|+-*/%_#@$~^`"]
_ALPHA = [(48, 48), (49, 55), (56, 57), (97, 97), (98, 98), (99, 100), (101, 101), (102, 102), (110, 110), (114, 114), (116, 116), (117, 117), (118, 118), (120, 120),
          (65, 65), (66, 66), (67, 68), (69, 69), (70, 70), (82, 82), (85, 85), (88, 88), (103, 109), (111, 113), (115, 115), (119, 119), (121, 122),
          (71, 81), (83, 84), (86, 87), (89, 90)]


def _decide(ch, codes):
    """Branch on ch being one of the codes; -> the code, or None."""
    for k in codes:
        if ENGINE.branch(ch.v == k, ch.code == k):
            return k
    return None


def _fine(ch):
    """Outside quotes or after a backslash: -> code (pinned within its class)
    or None for any other character."""
    k = _decide(ch, _TOKENS)
    if k is not None:
        return k
    for lo, hi in _ALPHA:
        if holds(ch, [(lo, hi)]):
            if lo != hi and ENGINE.active:
                c = ch.v == ch.code
                if c is not True and c not in ENGINE.decided:
                    ENGINE.pins += 1
                    ENGINE.record(c, True, flippable=False)
            return ch.code
    return None


def source(s):
    """Symbolic CEL source -> plain source with renamed characters."""
    xs = s.parts if isinstance(s, SymTextBase) else None
    if xs is None:
        xs = []
        for p in s.parts:  # rope
            if isinstance(p, SymDec):
                xs.append(p)
            else:
                xs.extend(_other(p))
    out = []
    quote = None  # None | (char, triple, raw)
    fine = 0  # characters that may continue an escape
    i = 0

    def emit(ch, inside_quote):
        if isinstance(ch, SymDec):
            return _numeral(ch)
        if not isinstance(ch, SymChar):
            return chr(ch)
        if inside_quote is None or fine:
            k = _fine(ch)
        else:
            q = inside_quote[0]
            k = _decide(ch, (*_BASIC, *(_SINGLE if q == "'" else ())))
        return chr(k) if k is not None else chr(PUA + _index(ch.v))

    escaped = False
    while i < len(xs):
        c = emit(xs[i], quote)
        i += 1
        out.append(c)
        if escaped:  # the character after a backslash decides how far it reaches
            escaped = False
            fine = {"x": 2, "u": 8, "U": 8}.get(c, 2 if c in "0123456789" else 0)
            continue
        if fine:
            fine -= 1
        if quote is None:
            if c in "\"'":
                rest = 0  # triple?
                while i < len(xs) and rest < 2:
                    d = emit(xs[i], (c,))
                    if d != c:
                        break
                    rest += 1
                    i += 1
                    out.append(d)
                quote = (c, True) if rest == 2 else (c, False) if rest == 0 else None
        elif c == "\\":  # (raw or not, the lexer reads escapes)
            fine, escaped = 1, True
        else:
            q, triple = quote
            if c == q and (not triple or (out[-3:] == [q, q, q])):
                quote, fine = None, 0
    return "".join(out)


_NUM: dict = {}  # placeholder numeral -> int term
_NUM_NAMES: dict = {}


def _numeral(d):
    num = d.num
    if isinstance(num.t, Node) and num.t.op == "v":
        i = _NUM_NAMES.setdefault(num.t.args[0], len(_NUM_NAMES))
        neg = ENGINE.branch(num.t < 0, num.c() < 0)
        s = ("-" if neg else "") + str(8_100_000_000_000_000_000 + i)
        _NUM[s] = num
        return s
    ENGINE.pin(num)
    return _plain(d)


def unrename(s):
    """Text made by celpy from renamed source -> symbolic text again (or None)."""
    if not any(PUA <= ord(c) <= 0xFFFFD for c in s):
        return None
    parts = []
    for c in s:
        o = ord(c)
        if PUA <= o <= 0xFFFFD and o - PUA < len(_BY_INDEX):
            v = _BY_INDEX[o - PUA]
            parts.append(SymChar(v, ENGINE.model[v.args[0]]))
        else:
            parts.append(o)
    return parts


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import celpy

    shim._text_hooks.append(_hook)
    st_new = celtypes.StringType.__new__
    it_new = celtypes.IntType.__new__
    compile_ = celpy.Environment.compile

    def string_new(cls, source, *a, **k):
        if cls is celtypes.StringType and isinstance(source, str) and ENGINE.active:
            if isinstance(source, SymTextBase):
                return SymCelText(source.parts)
            if not isinstance(source, Sym) and not source.isascii():
                parts = unrename(source)
                if parts is not None:
                    return SymCelText(parts)
        return st_new(cls, source, *a, **k)

    def int_new(cls, source, *a, **k):
        if cls is celtypes.IntType and _NUM and isinstance(source, str) and not isinstance(source, Sym):
            num = _NUM.get(str(source))
            if num is not None and ENGINE.active:
                name = num.t.args[0]
                return SymCelInt(num.t, ENGINE.model[name])
        return it_new(cls, source, *a, **k)

    def compile_text(self, text):
        if isinstance(text, SymTextBase) or (isinstance(text, SymRope) and ENGINE.active):
            if isinstance(text, SymRope) and not any(isinstance(p, (SymTextBase, SymDec)) for p in text.syms()):
                return compile_(self, text)
            try:
                return compile_(self, source(text))
            except celpy.CELParseError as err:
                raise err
        return compile_(self, text)

    celtypes.StringType.__new__ = staticmethod(string_new)
    celtypes.IntType.__new__ = staticmethod(int_new)
    celpy.Environment.compile = compile_text
