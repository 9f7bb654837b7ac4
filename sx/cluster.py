"""In-memory API server with the interface of kr8s.asyncio.Api that koreo uses:
async_get, lookup_kind, call_api (POST / PATCH as RFC 7386 merge patch / DELETE).

Every call is logged; faults and latencies are decided by the harness."""
from __future__ import annotations

import asyncio
import copy
import json
from contextlib import asynccontextmanager
from typing import NamedTuple

import kr8s
from kr8s._objects import APIObject

from .core import Sym, deepcopy_plain


class Call(NamedTuple):
    verb: str
    version: str
    plural: str
    namespace: object
    name: object
    data: object
    headers: dict

    @property
    def mutating(self):
        return self.verb in ("POST", "PATCH", "DELETE")


class Obj:
    __slots__ = ("plural", "namespace", "name", "doc")

    def __init__(self, plural, namespace, name, doc):
        self.plural, self.namespace, self.name, self.doc = plural, namespace, name, doc


class _Response:
    def __init__(self, doc, status_code=200):
        self._doc, self.status_code = doc, status_code

    def json(self):
        return copy.deepcopy(self._doc)


def server_error(code, message="server error"):
    return kr8s.ServerError(message, status=message, response=_Response({}, code))


def merge_patch(target, patch):
    """RFC 7386."""
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    out = dict(target) if isinstance(target, dict) else {}
    for k, v in patch.items():
        if v is None:
            out.pop(k, None)
        else:
            out[k] = merge_patch(out.get(k), v)
    return out


class Cluster:
    """`fault(call, when)`: called before ("before") and after ("after") a call
    takes effect; may raise, or return the string "hang".
    `latency(call)`: seconds the call takes (number or symbolic time)."""

    namespace = "default-ns"

    def __init__(self, absent="empty", fault=None, latency=None, defaulter=None):
        self.objects: list[Obj] = []
        self.log: list[Call] = []
        self.absent = absent
        self.fault = fault
        self.latency = latency
        self.defaulter = defaulter
        self.kinds: dict[str, tuple] = {}
        self.lookups: list[str] = []
        self._uid = 0

    # -- inspection
    @property
    def mutations(self):
        return [c for c in self.log if c.mutating]

    def find(self, plural, namespace, name):
        for o in self.objects:
            if o.plural == plural and o.namespace == namespace and o.name == name:
                return o
        return None

    def put(self, plural, namespace, name, doc):
        o = Obj(plural, namespace, name, copy.deepcopy(doc))
        self.objects.append(o)
        return o

    def contents(self):
        return [(o.plural, o.namespace, o.name, o.doc) for o in self.objects]

    # -- the API
    async def _gate(self, call, when):
        if when == "before" and self.latency is not None:
            d = self.latency(call)
            if d is not None:
                await asyncio.sleep(d)
        if self.fault is not None:
            r = self.fault(call, when)
            if r == "hang":
                await asyncio.get_running_loop().create_future()

    async def lookup_kind(self, kind):
        call = Call("LOOKUP", "", kind, None, None, None, {})
        self.log.append(call)
        self.lookups.append(kind)
        await self._gate(call, "before")
        await self._gate(call, "after")
        if kind in self.kinds:
            return self.kinds[kind]
        if self.kinds.get("*") == "unknown":
            raise ValueError(f"Kind {kind} not found.")
        base = kind.split(".")[0].lower()
        return (kind, base + "s", True)

    async def async_get(self, cls, *names, namespace=None, **kwargs):
        name = names[0] if names else None
        call = Call("GET", cls.version, cls.endpoint, namespace if cls.namespaced else None, name, None, {})
        self.log.append(call)
        await self._gate(call, "before")
        found = self.find(cls.endpoint, namespace if cls.namespaced else None, name)
        await self._gate(call, "after")
        if found is None:
            if self.absent == "notfound":
                raise kr8s.NotFoundError(f"{name} not found")
            if self.absent == "404":
                raise server_error(404, "not found")
            return
        doc = copy.deepcopy(found.doc)
        yield cls(api=self, resource=doc)

    @asynccontextmanager
    async def call_api(self, method="GET", version="v1", base="", namespace=None, url="", **kwargs):
        data = kwargs.get("data")
        doc = json.loads(data) if data is not None else None
        plural, _, name = url.partition("/") if type(url) is str else _split_url(url)
        if method == "POST":
            name = doc.get("metadata", {}).get("name")
        call = Call(method, version, plural, namespace, name, doc, dict(kwargs.get("headers") or {}))
        self.log.append(call)
        await self._gate(call, "before")
        found = self.find(plural, namespace, name)
        out = {}
        if method == "POST":
            if found is not None:
                raise server_error(409, "already exists")
            stored = copy.deepcopy(doc)
            self._uid += 1
            meta = stored.setdefault("metadata", {})
            meta["uid"] = f"uid-{self._uid}"
            meta["resourceVersion"] = "1"
            if self.defaulter is not None:
                stored = self.defaulter(stored)
            found = self.put(plural, namespace, name, stored)
            out = found.doc
        elif method == "PATCH":
            if found is None:
                raise server_error(404, "not found")
            merged = merge_patch(found.doc, doc)
            if isinstance(merged.get("metadata"), dict):
                merged["metadata"]["resourceVersion"] = str(
                    int(merged["metadata"].get("resourceVersion") or 1) + 1
                )
            found.doc = merged
            out = merged
        elif method == "DELETE":
            if found is None:
                raise server_error(404, "not found")
            self.objects.remove(found)
        await self._gate(call, "after")
        yield _Response(out)


def _split_url(url):
    """`plural/name` with a symbolic name."""
    parts = getattr(url, "parts", None)
    if parts is None:
        return url.partition("/")
    if len(parts) == 3 and parts[1] == "/":
        return parts[0], "/", parts[2]
    s = str.__str__(url)[:]
    url._pin()
    return s.partition("/")


_MADE = []


def reset_kinds():
    """Each path starts from the state of a fresh process: the classes earlier
    paths made are hidden from kr8s.get_class (and revived by new_class), a
    plural koreo recorded on a built-in class is undone."""
    for cls in _MADE:
        cls.kind = cls.singular = cls.plural = "<none>"
        cls.version = "v0"
    for cls in _walk(APIObject):
        was = _BUILTIN.get(cls)
        if was is not None and (cls.plural, cls.endpoint) != was:
            cls.plural, cls.endpoint = was


def _walk(cls):
    for c in cls.__subclasses__():
        yield c
        yield from _walk(c)


_BUILTIN = {}


def install_class_memory():
    """Making a class is slow; remember them.  A reused class gets its original
    attributes and moves to the end of its base's subclasses, as a new one."""
    new_class = kr8s.objects.new_class
    if getattr(new_class, "_sx", False):
        return
    for c in _walk(APIObject):
        if "plural" in c.__dict__:
            _BUILTIN[c] = (c.plural, c.endpoint)
    memo = {}

    def wrapped(*a, **k):
        if any(isinstance(x, Sym) for x in (*a, *k.values())):
            cls = new_class(*a, **k)
            _MADE.append(cls)
            return cls
        try:
            key = (a, tuple(sorted(k.items())))
            spare = memo.setdefault(key, [])
        except TypeError:
            return new_class(*a, **k)
        for cls, orig in spare:
            if cls.kind == "<none>":
                cls.kind, cls.singular, cls.plural, cls.endpoint, cls.namespaced, cls.version = orig
                bases = cls.__bases__
                cls.__bases__ = bases
                return cls
        cls = new_class(*a, **k)
        spare.append((cls, (cls.kind, cls.singular, cls.plural, cls.endpoint, cls.namespaced, cls.version)))
        _MADE.append(cls)
        return cls

    wrapped._sx = True
    kr8s.objects.new_class = wrapped


__all__ = ["Cluster", "Call", "server_error", "merge_patch", "reset_kinds", "deepcopy_plain"]
