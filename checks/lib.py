"""Shared by the check modules: building definitions through koreo's public API."""
from __future__ import annotations

import asyncio
import collections
import copy
import sys

from celpy import celtypes

from sx import vloop
from sx.core import PathEnd, Violated

from koreo import cache, registry
from koreo import result as kr

CLASSES = ("depskip", "skip", "ok", "retry", "permfail")
SEVERITY = {c: i for i, c in enumerate(CLASSES)}


def klass(outcome) -> str:
    if isinstance(outcome, kr.DepSkip):
        return "depskip"
    if isinstance(outcome, kr.Skip):
        return "skip"
    if isinstance(outcome, kr.Retry):
        return "retry"
    if isinstance(outcome, kr.PermFail):
        return "permfail"
    return "ok"


def _containers():
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "koreo" or name == "koreo.schema" or mod is None:
            continue  # (the parsed CRD schemas stay)
        for k, v in list(vars(mod).items()):
            if isinstance(v, (dict, list, set, collections.deque)) and k not in ("__builtins__", "__path__", "__all__", "__annotations__"):
                yield (name, k), v
            elif hasattr(v, "cache_clear") and hasattr(v, "cache_info"):
                yield (name, k), v


_INITIAL = {}


def remember_world():
    """The module-level state of koreo just after import."""
    for key, v in _containers():
        _INITIAL[key] = None if hasattr(v, "cache_clear") else v.copy()


def reset_world():
    """A fresh process state: module-level containers as just after import."""
    for n in (("_reset_registries", registry), ("_reset_cache", cache)):
        f = getattr(n[1], n[0], None)
        if f:
            f()
    for key, v in _containers():
        was = _INITIAL.get(key)
        if hasattr(v, "cache_clear"):
            v.cache_clear()
        elif was is None:
            continue
        elif isinstance(v, (dict, set)):
            v.clear()
            v.update(was)
        else:
            v.clear()
            v.extend(was)


class Crash(Exception):
    """koreo let an exception escape."""


def run(coro):
    return vloop.run(coro)


def guarded(sx, key, fn, *a, **k):
    """Call koreo; an escaping exception is a violation named `key`."""
    try:
        return fn(*a, **k)
    except (PathEnd, Violated):
        raise
    except Exception as err:
        sx.fail(key, f"{type(err).__name__}: {err}")


async def aguarded(sx, key, coro):
    try:
        return await coro
    except (PathEnd, Violated, asyncio.CancelledError):
        raise
    except Exception as err:
        sx.fail(key, f"{type(err).__name__}: {err}")


# ------------------------------------------------------------------ definitions
from koreo.value_function.structure import ValueFunction
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_template.structure import ResourceTemplate
from koreo.resource_template.prepare import prepare_resource_template
from koreo.workflow.structure import Workflow
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.function_test.structure import FunctionTest
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.run import run_function_test
from koreo.resource_function.reconcile import kind_lookup

from sx.cluster import Cluster, merge_patch, reset_kinds, server_error
from sx.core import deepcopy_plain, strict_equal, Sym
import celpy

import koreo.status  # noqa
from sx import loader

loader.settle()
remember_world()

PREPARERS = {
    ValueFunction: prepare_value_function,
    ResourceFunction: prepare_resource_function,
    ResourceTemplate: prepare_resource_template,
    Workflow: prepare_workflow,
    FunctionTest: prepare_function_test,
}

LAST_APPLIED = "koreo.dev/last-applied-configuration"
DIRECTIVES = ("x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied")


def fresh():
    """State of a newly started process."""
    reset_kinds()
    f = getattr(kind_lookup, "_reset", None)
    if f:
        f()
    reset_world()


async def offer(cls, name, spec, version="1"):
    return await cache.prepare_and_cache(
        resource_class=cls,
        preparer=PREPARERS[cls],
        metadata={"name": name, "resourceVersion": version},
        spec=copy.deepcopy(spec),
    )


def cel(v):
    """Plain/symbolic JSON -> CEL values (what koreo's callers pass as inputs)."""
    if isinstance(v, dict):
        return celtypes.MapType({celtypes.StringType(k): cel(x) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return celtypes.ListType([cel(x) for x in v])
    if isinstance(v, bool):
        return celtypes.BoolType(v)
    if isinstance(v, celtypes.BoolType) or v is None:
        return v
    if isinstance(v, str):
        return celtypes.StringType(v)
    if isinstance(v, int):
        return celtypes.IntType(v)
    if isinstance(v, float):
        return celtypes.DoubleType(v)
    return v


OWNER_NS = "team-a"
OWNER_REF = {
    "apiVersion": "example.dev/v1",
    "kind": "Parent",
    "name": "parent",
    "uid": "parent-uid",
    "controller": True,
    "blockOwnerDeletion": False,
}
