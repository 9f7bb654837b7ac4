"""ResourceFunction harness: one managed object in an in-memory cluster."""
from __future__ import annotations

from checks.lib import *

KINDS = {
    "ns": dict(apiVersion="test.koreo.dev/v1", kind="Widget", plural="widgets", namespaced=True),
    "cluster": dict(apiVersion="test.koreo.dev/v1", kind="ClusterWidget", plural="clusterwidgets", namespaced=False),
    "lookup": dict(apiVersion="test.koreo.dev/v1", kind="Gadget", plural=None, namespaced=True),
}

UPDATES = {
    "default": None,
    "patch": {"patch": {"delay": 17}},
    "recreate": {"recreate": {"delay": 23}},
    "never": {"never": {}},
}
DELAYS = {"default": 30, "patch": 17, "recreate": 23}


def rf_spec(
    resource, kind="ns", name="widget-1", namespace="team-a", update="patch", create=None,
    readonly=None, owned=None, delete=None, ret=None, **extra,
):
    k = KINDS[kind]
    api = dict(apiVersion=k["apiVersion"], kind=k["kind"], name=name)
    if k["plural"]:
        api["plural"] = k["plural"]
    if not k["namespaced"]:
        api["namespaced"] = False
    if namespace is not None and k["namespaced"]:
        api["namespace"] = namespace
    for key, v in (("readonly", readonly), ("owned", owned), ("deleteIfExists", delete)):
        if v is not None:
            api[key] = v
    spec = {"apiConfig": api}
    if resource is not None:
        spec["resource"] = resource
    if UPDATES.get(update) is not None:
        spec["update"] = UPDATES[update]
    if create is not None:
        spec["create"] = create
    if ret is not None:
        spec["return"] = ret
    spec.update(extra)
    return spec


def plural_of(kind):
    return KINDS[kind]["plural"] or "gadgets"


class Rig:
    """One function against one cluster."""

    def __init__(self, sx, spec, cluster=None, inputs=None, owner=(OWNER_NS, OWNER_REF), name="rf"):
        self.sx, self.spec, self.name = sx, spec, name
        self.cluster = cluster or Cluster()
        self.inputs = inputs or {}
        self.owner = owner
        self.function = None

    async def prepare(self):
        self.function = await offer(ResourceFunction, self.name, self.spec)
        if klass(self.function) != "ok":
            raise AssertionError(f"harness function is not ready: {self.function}")

    async def step(self):
        """One pass -> (Result, calls made)."""
        start = len(self.cluster.log)
        r = await aguarded(
            self.sx, "crash",
            reconcile_resource_function(
                api=self.cluster, location="loc", function=self.function, owner=self.owner,
                inputs=cel(self.inputs),
            ),
        )
        return r, self.cluster.log[start:]


def strip(doc):
    """Directives removed, at any depth."""
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k not in DIRECTIVES}
    if isinstance(doc, (list, tuple)):
        return [strip(v) for v in doc]
    return doc


def covers(big, small):
    """`big` carries everything `small` says (maps: superset)."""
    if isinstance(small, dict):
        return isinstance(big, dict) and all(k in big and covers(big[k], v) for k, v in small.items())
    return strict_equal(big, small)


UNSPEC = "unspecified"


def meets(target, live, last=None, path=()):
    """Reference: does `live` contain every field of `target` with an equal
    value?  True / False / UNSPEC (the statement leaves it open)."""
    if isinstance(target, dict):
        if not isinstance(live, dict):
            return False
        verdict = True
        as_set = target.get("x-koreo-compare-as-set", ())
        as_map = target.get("x-koreo-compare-as-map", {})
        by_last = target.get("x-koreo-compare-last-applied", ())
        for k, v in target.items():
            if k in DIRECTIVES:
                continue
            if path == ("metadata",) and k == "ownerReferences":
                continue
            last_v = last.get(k) if isinstance(last, dict) else None
            if k in by_last:
                if not isinstance(last, dict) or k not in last:
                    r = UNSPEC if v is None else False
                else:
                    r = meets_list(v, last[k], k, as_set, as_map, last_v, path + (k,))
            elif k not in live:
                r = UNSPEC if v is None else False
            else:
                r = meets_list(v, live[k], k, as_set, as_map, last_v, path + (k,))
            if r is False:
                return False
            if r is UNSPEC:
                verdict = UNSPEC
        return verdict
    if isinstance(target, (list, tuple)):
        if not isinstance(live, (list, tuple)) or len(target) != len(live):
            return False
        verdict = True
        for i, (t, l) in enumerate(zip(target, live)):
            lv = last[i] if isinstance(last, (list, tuple)) and i < len(last) else None
            r = meets(t, l, lv, path + (i,))
            if r is False:
                return False
            if r is UNSPEC:
                verdict = UNSPEC
        return verdict
    if isinstance(live, (dict, list, tuple)):
        return False
    return strict_equal(target, live)


def meets_list(target, live, key, as_set, as_map, last, path):
    if key in as_set and isinstance(target, (list, tuple)):
        if not isinstance(live, (list, tuple)):
            return False
        return all(any(strict_equal(t, l) for l in live) for t in target) and all(
            any(strict_equal(t, l) for t in target) for l in live
        )
    if key in as_map and isinstance(target, (list, tuple)):
        if not isinstance(live, (list, tuple)):
            return False
        fields = as_map[key]
        if not target:
            return UNSPEC if live else True
        verdict = True
        for i, t in enumerate(target):
            if any(isinstance(t, dict) and isinstance(o, dict) and all(strict_equal(t.get(f), o.get(f)) for f in fields) for o in target[:i]):
                return UNSPEC  # a "map" with the same key twice
        for t in target:
            hits = [
                (i, l) for i, l in enumerate(live)
                if isinstance(l, dict) and all(f in l and strict_equal(l[f], t.get(f)) for f in fields)
            ]
            if not hits:
                return False
            if len(hits) > 1:
                verdict = UNSPEC  # a "map" with the same key twice
                continue
            lv = None
            if isinstance(last, (list, tuple)):
                for c in last:
                    if isinstance(c, dict) and all(f in c and strict_equal(c[f], t.get(f)) for f in fields):
                        lv = c
            r = meets(t, hits[0][1], lv, path + ("*",))
            if r is False:
                return False
            if r is UNSPEC:
                verdict = UNSPEC
        return verdict
    return meets(target, live, last, path)
