"""FunctionTest harness: what the Function under test really does, and the tests."""
from __future__ import annotations

import re

from checks.lib import *

NS, NAME = "ns", "n"
API = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "name": NAME, "namespace": NS}
PLURAL = "widgets"
KIND_OF = {"vf": "ValueFunction"}


def rf(resource={"spec": {"a": "=inputs.a"}}, update=None, api=None, ret={"i": "=inputs", "r": "=resource"}, **extra):
    spec = {"apiConfig": {**API, **(api or {})}, **extra}
    if resource is not None:
        spec["resource"] = resource
    if update:
        spec["update"] = {update: {} if update == "never" else {"delay": 11}}
    if ret is not None:
        spec["return"] = ret
    return spec


def live(spec, **top):
    return {"apiVersion": API["apiVersion"], "kind": API["kind"], "metadata": {"name": NAME, "namespace": NS}, "spec": spec, **top}


class Truth(tuple):
    """outcome, body sent by a create or patch (None: no attempt), deleted"""

    outcome = property(lambda s: s[0])
    sent = property(lambda s: s[1])
    deleted = property(lambda s: s[2])


async def truth(sx, function, inputs, resource):
    """One run of the function against a cluster holding `resource`."""
    if isinstance(function, ValueFunction):
        base = cel(resource) if resource else celtypes.MapType({})
        out = await aguarded(sx, "function-raises", reconcile_value_function(location="truth", function=function, inputs=cel(inputs), value_base=base))
        return Truth((out, None, False))
    cluster = Cluster()
    if resource:
        cluster.put(PLURAL, NS, NAME, resource)
    out, _ = await aguarded(
        sx, "function-raises",
        reconcile_resource_function(api=cluster, location="truth", function=function, owner=("elsewhere", celtypes.MapType({"uid": "unit-test-123"})), inputs=cel(inputs)),
    )
    sent = [c.data for c in cluster.mutations if c.verb in ("POST", "PATCH")]
    return Truth((out, sent[-1] if sent else None, any(c.verb == "DELETE" for c in cluster.mutations)))


def plain(v):
    """CEL values as JSON (symbolic leaves kept)."""
    if isinstance(v, dict):
        return {str(k) if not isinstance(k, Sym) else k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, celtypes.BoolType):
        return bool(v)
    return v


def bare(body):
    """The object sent, without the last-applied annotation."""
    meta = body.get("metadata")
    ann = meta.get("annotations") if isinstance(meta, dict) else None
    if not isinstance(ann, dict) or LAST_APPLIED not in ann:
        return body
    rest = {k: v for k, v in ann.items() if k != LAST_APPLIED}
    meta = {**meta, "annotations": rest}
    if not rest:
        del meta["annotations"]
    return {**body, "metadata": meta}


SET, MAP = "x-koreo-compare-as-set", "x-koreo-compare-as-map"
LEFT_OPEN = "open"


def equals(target, actual, as_set=False, as_map=None):
    """Exactly the same JSON, modulo the directives of `target`: True, False, or
    a text naming why the statement does not settle it."""
    if isinstance(target, dict) != isinstance(actual, dict):
        return False
    if isinstance(target, dict):
        sets, maps = target.get(SET, ()), target.get(MAP, {})
        t = {k: v for k, v in target.items() if k not in DIRECTIVES}
        a = {k: v for k, v in actual.items() if k not in DIRECTIVES}
        if set(t) != set(a):
            return False
        return both(equals(t[k], a[k], k in sets, maps.get(k)) for k in t)
    is_list = lambda v: isinstance(v, (list, tuple))
    if is_list(target) != is_list(actual):
        return False
    if is_list(target):
        if as_map is not None:
            return equal_maps(target, actual, as_map)
        if as_set:
            if any(isinstance(x, (dict, list, tuple)) for x in (*target, *actual)):
                return LEFT_OPEN
            return all(any(strict_equal(t, a) for a in actual) for t in target) and all(any(strict_equal(t, a) for t in target) for a in actual)
        if len(target) != len(actual):
            return False
        return both(equals(t, a) for t, a in zip(target, actual))
    return strict_equal(target, actual)


def equal_maps(target, actual, fields):
    if any(not isinstance(x, dict) for x in (*target, *actual)):
        return LEFT_OPEN
    key = lambda x: [x.get(f) for f in fields]
    for side in (target, actual):
        for i, x in enumerate(side):
            if any(strict_equal(key(x), key(y)) for y in side[:i]):
                return LEFT_OPEN
    if len(target) != len(actual):
        return False
    out = []
    for t in target:
        hits = [a for a in actual if strict_equal(key(t), key(a))]
        if not hits:
            return False
        out.append(equals(t, hits[0]))
    return both(out)


def both(verdicts):
    verdicts = list(verdicts)
    if any(v is False for v in verdicts):
        return False
    return next((v for v in verdicts if v is not True), True)


def holds(assertion, t):
    """Does the assertion describe what the function did?"""
    ((what, value),) = assertion.items()
    if what == "expectReturn":
        return klass(t.outcome) == "ok" and equals(value, plain(t.outcome))
    if what == "expectResource":
        return t.sent is not None and equals(value, bare(t.sent))
    if what == "expectDelete":
        return t.deleted == value
    ((cls, say),) = value.items()
    if cls.lower() != klass(t.outcome):
        return False
    if cls == "ok":
        return True
    want, got = say["message"], t.outcome.message
    if cls == "retry" and say["delay"] != 0 and say["delay"] != t.outcome.delay:
        return False
    if want in got:
        return True
    return LEFT_OPEN if want.lower() in got.lower() else False


async def make(sx, fut, spec):
    cls = ValueFunction if fut == "vf" else ResourceFunction
    f = await offer(cls, "fut", spec)
    if klass(f) != "ok":
        raise AssertionError(f"harness function is not ready: {f}")
    return f


async def prepare(fut, inputs, resource, cases):
    spec = {"functionRef": {"kind": "ValueFunction" if fut == "vf" else "ResourceFunction", "name": "fut"}, "testCases": cases}
    if inputs is not None:
        spec["inputs"] = inputs
    if resource is not None:
        spec["currentResource"] = resource
    out = await prepare_function_test("ft", copy.deepcopy(spec))
    if not isinstance(out, tuple):
        raise AssertionError(f"harness FunctionTest is not ready: {out}")
    return out[0]


def where(err):
    tb, name = err.__traceback__, "?"
    while tb is not None:
        mod = tb.tb_frame.f_globals.get("__name__", "")
        if mod.split(".")[0] == "koreo":
            name = f"{mod.removeprefix('koreo.')}.{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return f"{name}/{type(err).__name__}"


async def execute(sx, test, info):
    try:
        return await run_function_test("ft", test)
    except (PathEnd, Violated, asyncio.CancelledError):
        raise
    except Exception as err:
        sx.fail(f"raises[{where(err)}]", lambda: f"{info()}: {type(err).__name__}: {err}")


def said(text):
    """A message without the position of its test case."""
    if isinstance(text, Sym):
        return text
    return re.sub(r"<class '[^']*'>|ft\.testCases\[\d+\]|truth|Test Case \d+", "#", text) if isinstance(text, str) else text
