"""Workflow harnesses: generated workflows with a reference interpreter.

A step's Logic is one of a few functions whose outcome class is selected by the
symbolic integer it receives as `mode`; whether a branch is taken - and so
whether a class multiplies the paths - is decided only where the Logic runs."""
from __future__ import annotations

from checks.rflib import *

API = KINDS["ns"]
FIRST, SECOND = "first", "second"


def outcome_of(mode, allow_error=True):
    """The class the Logic gives for `mode` (branches like the Logic does)."""
    for n, c in ((1, "skip"), (2, "depskip"), (3, "retry"), (4, "permfail")):
        if mode == n:
            return c
    if mode == 5:
        return "permfail"
    return "ok"


PRECONDITIONS = [
    {"assert": "=inputs.mode != 1", "skip": {"message": "=inputs.tag + ' skips'"}},
    {"assert": "=inputs.mode != 2", "depSkip": {"message": "=inputs.tag + ' waits'"}},
    {"assert": "=inputs.mode != 3", "retry": {"message": "=inputs.tag + ' retries'", "delay": 7}},
    {"assert": "=inputs.mode != 4", "permFail": {"message": "=inputs.tag + ' fails'"}},
]


def vf_spec(out=None):
    return {
        "preconditions": PRECONDITIONS,
        "locals": {"check": "=10 / (inputs.mode - 5)"},
        "return": {"got": "=inputs.data", "tag": "=inputs.tag", "by": out or "vf"},
    }


def widget_doc(tag):
    return {
        "apiVersion": API["apiVersion"], "kind": API["kind"], "spec": {"tag": tag},
        "metadata": {"name": tag, "namespace": OWNER_NS, "uid": f"u-{tag}", "ownerReferences": [dict(OWNER_REF)]},
    }


def rf_logic(readonly=False, update="patch", by="rf"):
    return rf_spec(
        {"spec": {"tag": "=inputs.tag"}}, name="=inputs.tag", update=update, readonly=readonly or None,
        ret={"got": "=inputs.data", "tag": "=resource.metadata.name", "by": by},
        preconditions=PRECONDITIONS, postconditions=[{"assert": "=[10 / (inputs.mode - 5)] != []", "ok": {}}],
    )


async def offer_ok(cls, name, spec, version="1"):
    r = await offer(cls, name, spec, version)
    if klass(r) != "ok":
        raise AssertionError(f"{name} is not ready: {r}")
    return r


async def offer_logics(*names):
    for n in names or ("vf", "rf"):
        if n == "vf":
            await offer_ok(ValueFunction, "vf", vf_spec())
        elif n == "rf":
            await offer_ok(ResourceFunction, "rf", rf_logic())
        else:
            await offer_ok(ResourceFunction, f"case-{n}", rf_logic(by=n))


VFREF = {"kind": "ValueFunction", "name": "vf"}
RFREF = {"kind": "ResourceFunction", "name": "rf"}


# ------------------------------------------------------- how a step names its dependencies
def dep_expr(form, deps):
    """-> (inputs value, skipIf or None, the value mapped, given dep values)."""
    L = deps
    if form == "dot":
        return {l: f"=steps.{l}.tag" for l in L}, lambda v: {l: v[l]["tag"] for l in L}
    if form == "index":
        return {l: f"=steps['{l}'].got" for l in L}, lambda v: {l: v[l]["got"] for l in L}
    if form == "whole":
        return {l: f"=steps.{l}" for l in L}, lambda v: {l: v[l] for l in L}
    if form == "deep":
        return [{"x": [f"=steps.{l}.tag", "=parent.t"]} for l in L], lambda v: [{"x": [v[l]["tag"], v["parent"]["t"]]} for l in L]
    if form == "macro":
        e = "{" + ", ".join(f"'{l}': [steps.{l}.got]" for l in L) + "}"
        return f"=[1, 2].map(q, {e})", lambda v: [{l: [v[l]["got"]] for l in L}] * 2
    if form == "call":
        return {l: f"=overlay({{'a': steps.{l}}}, {{'b': steps['{l}'].tag}})" for l in L}, lambda v: {l: {"a": v[l], "b": v[l]["tag"]} for l in L}
    if form == "ternary":
        return {l: f"=parent.t == 'never' ? parent.t : steps.{l}.tag" for l in L}, lambda v: {
            l: (v["parent"]["t"] if strict_equal(v["parent"]["t"], "never") else v[l]["tag"]) for l in L}
    raise AssertionError(form)


FORMS = ("dot", "index", "whole", "deep", "macro", "call", "ternary")


# ------------------------------------------------------- reference results
class Out:
    """What a step is expected to report."""

    def __init__(self, cls, value=None, calls=(), ids=None):
        self.cls, self.value, self.calls, self.ids = cls, value, list(calls), ids


REASON = {"depskip": "DepSkip", "skip": "Skip", "retry": "Wait", "permfail": "Failure", "ok": "Ready"}


def rid(tag, function="rf"):
    return {
        "apiVersion": API["apiVersion"], "kind": API["kind"], "plural": API["plural"], "name": tag,
        "namespace": OWNER_NS, "readonly": False, "resourceFunction": function,
    }


def logic_vf(mode, tag, data, by="vf"):
    c = outcome_of(mode)
    return Out(c, {"got": data, "tag": tag, "by": by} if c == "ok" else None)


def logic_rf(mode, tag, data, present=True, by="rf", function="rf"):
    for n, c in ((1, "skip"), (2, "depskip"), (3, "retry"), (4, "permfail")):
        if mode == n:
            return Out(c)
    calls = [("GET", tag)] if present else [("GET", tag), ("POST", tag)]
    if not present:
        return Out("retry", calls=calls, ids=rid(tag, function))
    if mode == 5:
        return Out("permfail", calls=calls)
    return Out("ok", {"got": data, "tag": tag, "by": by}, calls, rid(tag, function))


def overall(classes):
    if not classes:
        return "permfail"
    return max(classes, key=SEVERITY.get)


def plain(v):
    if isinstance(v, dict):
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def condition(res, type_):
    return [c for c in res.conditions if c["type"] == type_]
