"""C04: no mutation once the target is met; create/patch reach a fixpoint."""
import json

from sx.main import Harness

from checks.rflib import *
from checks.c05 import SHAPES as BASE, build_inputs, target_of, identity

SHAPES = dict(BASE)
SHAPES["last"] = (
    {"spec": {"x-koreo-compare-last-applied": ["a", "m"], "a": "=inputs.a", "m": {"b": "=inputs.b"}, "c": "=inputs.c"}},
    dict(a=("text", "int"), b=("text", "bool"), c=("text",)),
)
SHAPES["lastlist"] = (
    {"spec": {"x-koreo-compare-last-applied": ["l"], "x-koreo-compare-as-map": {"k": ["n"]},
              "l": ["=inputs.a", "=inputs.b"], "k": [{"n": "one", "x-koreo-compare-last-applied": ["z"], "z": "=inputs.b"}]}},
    dict(a=("text", "int"), b=("text",)),
)
SHAPES["lastset"] = (
    {"spec": {"x-koreo-compare-last-applied": ["l", "m"], "x-koreo-compare-as-set": ["l"], "x-koreo-compare-as-map": {"m": ["n"]},
              "l": ["=inputs.a", "=inputs.b"], "m": [{"n": "=inputs.a", "v": "=inputs.b"}]}},
    dict(a=("text", "int"), b=("text",)),
)
SHAPES["dirnested"] = (
    {"spec": {"x-koreo-compare-as-map": {"outer": ["n"]},
              "outer": [{"n": "=inputs.a", "x-koreo-compare-as-map": {"inner": ["p"]},
                         "inner": [{"p": "=inputs.b", "x-koreo-compare-as-set": ["s"], "s": ["=inputs.c", "=inputs.a"]}]}]}},
    dict(a=("text",), b=("int",), c=("text", "empty")),
)


SHAPES["stale"] = (
    {"metadata": {"annotations": {LAST_APPLIED: "=inputs.a", "note": "=inputs.b"}}, "spec": {"c": "=inputs.b"}},
    dict(a=("text",), b=("text",)),
)
SHAPES["refs"] = (
    {"metadata": {"ownerReferences": [{"apiVersion": "v1", "kind": "O", "name": "o", "uid": "=inputs.a"}]}, "spec": {"c": "=inputs.b"}},
    dict(a=("text",), b=("text",)),
)


def shuffle(sx, name, xs):
    xs, out = list(xs), []
    while xs:
        out.append(xs.pop(sx.choice(f"{name}#p{len(xs)}", tuple(range(len(xs))))))
    return out


class Touches:
    """How many more places the server may alter."""

    def __init__(self, n):
        self.n = n

    def flag(self, sx, name):
        if self.n <= 0 or not sx.flag(name):
            return False
        self.n -= 1
        return True

    def choice(self, sx, name, options):
        if self.n <= 0:
            return options[0]
        how = sx.choice(name, options)
        if how != options[0]:
            self.n -= 1
        return how


def serverside(sx, name, t, left):
    """What a server may make of an applied target: extra fields anywhere in
    maps, set/map-directed lists in any order, extra members in map-directed
    lists; last-applied-compared fields rewritten."""
    if isinstance(t, dict):
        as_set = t.get("x-koreo-compare-as-set", ())
        as_map = t.get("x-koreo-compare-as-map", {})
        by_last = t.get("x-koreo-compare-last-applied", ())
        out = {}
        for k, v in t.items():
            if k in DIRECTIVES:
                continue
            if k in by_last:
                how = left.choice(sx, f"{name}.{k}@", ("keep", "rewritten", "dropped"))
                if how == "rewritten":
                    out[k] = sx.leaf(f"{name}.{k}@", ("text", "int", "null", "map", "list"))
                    continue
                if how == "dropped":
                    continue
            r = serverside(sx, f"{name}.{k}", v, left)
            if (k in as_set or k in as_map) and left.flag(sx, f"{name}.{k}#"):
                r = shuffle(sx, f"{name}.{k}", r)
                if k in as_set and r and sx.flag(f"{name}.{k}dup"):
                    r.append(r[0])
            out[k] = r
        if left.flag(sx, f"{name}+"):
            out["zz-added"] = sx.leaf(f"{name}+", ("text", "null", "map"))
        return out
    if isinstance(t, (list, tuple)):
        return [serverside(sx, f"{name}[{i}]", v, left) for i, v in enumerate(t)]
    return t


def distinct_keys(template, inputs):
    """A map-directed list is a map: its keys differ (else the spec says the
    same member twice)."""
    ok = True

    def walk(t):
        nonlocal ok
        if isinstance(t, dict):
            for k, fields in t.get("x-koreo-compare-as-map", {}).items():
                items = t.get(k, ())
                for i, a in enumerate(items):
                    for b in items[i + 1 :]:
                        if all(strict_equal(a.get(f), b.get(f)) for f in fields):
                            ok = False
            for v in t.values():
                walk(v)
        elif isinstance(t, (list, tuple)):
            for v in t:
                walk(v)

    walk(template)
    return ok


# policy, ownership, postconditions pass, server state, last-applied annotation, another owner
MET_VARIANTS = (
    ("patch", "owned", True, "plain", "current", False),
    ("recreate", "owned", True, "deleting", "current", True),
    ("patch", "unowned", True, "busy", "other", False),
    ("patch", "foreign", False, "plain", "none", True),
    ("recreate", "unowned", False, "plain", "garbage", False),
    ("patch", "owned", True, "deleting", "scalar", True),
    ("recreate", "foreign", True, "busy", "list", False),
    ("patch", "owned", False, "busy", "current", True),
)


def met(sx, cfg):
    """The live object meets the target in some server-made form."""

    async def body():
        fresh()
        template, leaves = SHAPES[cfg["shape"]]
        if cfg.get("all"):
            policy, own = sx.choice("policy", ("patch", "recreate")), sx.choice("own", ("owned", "unowned", "foreign"))
            go, server = sx.choice("go", ((True, "plain"), (False, "plain"), (True, "busy"), (True, "deleting")))
            ann, other = sx.choice("annotation", ("current", "other", "none", "garbage", "scalar", "list")), sx.flag("other-owner")
        else:
            policy, own, go, server, ann, other = sx.choice("variant", MET_VARIANTS)
        if "last" in cfg["shape"] and ann != "current":
            raise PathEnd()
        inputs = build_inputs(sx, leaves if cfg.get("all") else {k: v[:2] for k, v in leaves.items()})
        target = target_of(template, inputs)
        sx.assume(distinct_keys(target, inputs))
        spec = rf_spec(
            template, update=policy, owned=None if own != "unowned" else False,
            postconditions=[{"assert": "=inputs.go", "skip": {"message": "post"}}],
            ret={"rv": "=resource.metadata.resourceVersion", "uid": "=resource.metadata.uid"},
        )
        owner = ("elsewhere" if own == "foreign" else OWNER_NS, OWNER_REF)
        rig = Rig(sx, spec, inputs={**inputs, "go": go}, owner=owner)
        await rig.prepare()
        live = serverside(sx, "t", {k: v for k, v in target.items()}, Touches(cfg.get("touches", 2)))
        live["metadata"].update(uid="srv-uid", resourceVersion="5")
        if server == "deleting":
            live["metadata"].update(deletionTimestamp="2024-01-01T00:00:00Z", deletionGracePeriodSeconds=0, finalizers=["example.dev/hold"])
        elif server == "busy":
            live["metadata"].update(generation=9, creationTimestamp="2024-01-01T00:00:00Z", managedFields=[{"manager": "other", "operation": "Update"}])
            live["status"] = {"observedGeneration": 2, "conditions": [{"type": "Ready", "status": "False"}]}
        refs = []
        if other:
            refs.append({**OWNER_REF, "name": "other", "uid": "other-uid"})
        if own == "owned":
            refs.insert(sx.choice("at", (0, len(refs))), dict(OWNER_REF))
        if refs:
            live["metadata"]["ownerReferences"] = refs
        if ann != "none":
            text = {
                "current": lambda: json.dumps(strip(target)),
                "other": lambda: json.dumps({"spec": {"a": ["old"], "l": {"x": 1}, "m": "old"}, "metadata": "x"}),
                "garbage": lambda: "{not json",
                "scalar": lambda: "5",
                "list": lambda: "[]",
            }[ann]()
            live["metadata"].setdefault("annotations", {})[LAST_APPLIED] = text
        before = copy.deepcopy(live)
        rig.cluster.put("widgets", "team-a", "widget-1", live)
        sx.note(shape=cfg["shape"], policy=policy, own=own, annotation=ann, live=before, target=target)
        result, calls = await rig.step()
        muts = [c.verb for c in calls if c.mutating]
        info = lambda: f"policy={policy} own={own} ann={ann} target={deepcopy_plain(target)} live={deepcopy_plain(before)} -> {muts} {result.outcome}"
        sx.observe(muts, klass(result.outcome))
        sx.check(not muts, "mutates-when-met", info)
        if go:
            sx.check(
                klass(result.outcome) == "ok" and strict_equal(result.outcome, {"rv": "5", "uid": "srv-uid"}),
                "return-evaluated", info,
            )
            sx.reach("returned")
        else:
            sx.check(klass(result.outcome) == "skip" and result.outcome.message == "post", "postconditions-evaluated", info)
            sx.reach("postcondition")

    run(body())


def fixpoint(sx, cfg):
    """From absent or drifted: passes mutate until the target is met, then stop."""

    async def body():
        fresh()
        template, leaves = SHAPES[cfg["shape"]]
        creates = (None, {"delay": 11}, {"delay": 13, "overlay": {"spec": {"once": "=inputs.once"}}})
        if cfg.get("all"):
            policy, create = sx.choice("policy", ("patch", "default", "recreate")), sx.choice("create", creates)
        else:
            policy, create = sx.choice("variant", (("patch", creates[2]), ("default", None), ("recreate", creates[1]), ("recreate", creates[2])))
        inputs = build_inputs(sx, leaves if cfg.get("all") else {k: v[:2] for k, v in leaves.items()})
        target = target_of(template, inputs)
        sx.assume(distinct_keys(target, inputs))
        kind = sx.choice("kind", ("ns", "cluster") if cfg["shape"] == "nested" else ("ns",))
        spec = rf_spec(template, kind=kind, update=policy, create=create, ret={"uid": "=resource.metadata.uid"})
        inputs = {**inputs, "once": "only-at-creation"}
        start = sx.choice("start", ("absent", "bare", "unowned", "stripped"))
        # (the other starts come to it after a deletion)
        cluster = Cluster(absent=sx.choice("absent", ("empty", "notfound", "404") if cfg.get("all") or start == "absent" else ("notfound",)))
        rig = Rig(sx, spec, cluster=cluster, inputs=inputs)
        await rig.prepare()
        ns = "team-a" if kind == "ns" else None
        if start != "absent":
            live = identity(kind)
            if start == "unowned":
                live.update(strip({k: v for k, v in target.items() if k == "spec"}))
            elif start == "stripped":
                live["spec"] = {}
            live["metadata"].update(uid="srv-uid", resourceVersion="5")
            if start in ("stripped", "bare") and sx.flag("deleting"):
                live["metadata"].update(deletionTimestamp="2024-01-01T00:00:00Z", finalizers=["example.dev/hold"])
            refs = sx.choice("refs", (None, "empty", "other", "ours"))
            if refs:
                live["metadata"]["ownerReferences"] = {
                    "empty": [], "other": [{**OWNER_REF, "uid": "u2"}], "ours": [dict(OWNER_REF)],
                }[refs]
            cluster.put(plural_of(kind), ns, "widget-1", live)
        sx.note(shape=cfg["shape"], policy=policy, start=start, kind=kind)
        # what has to hold of the object (the identity comes from apiConfig)
        goal = {**target, **identity(kind)}
        if kind == "ns":
            goal["metadata"] = {**target["metadata"], **identity(kind)["metadata"]}
        else:
            del goal["metadata"]
        log = []
        quiet = False
        for i in range(5):
            result, calls = await rig.step()
            muts = [c.verb for c in calls if c.mutating]
            log.append((muts, str(result.outcome)))
            sx.observe(muts, klass(result.outcome))
            info = lambda: f"policy={policy} start={start} kind={kind} target={deepcopy_plain(target)} log={log} stored={deepcopy_plain([o.doc for o in cluster.objects])}"
            if muts:
                sx.check(len(muts) == 1, "one-mutation-per-pass", info)
                sx.check(not quiet, "mutates-again", info)
                delay = {
                    "POST": (create or {}).get("delay", 30), "PATCH": DELAYS[policy], "DELETE": DELAYS[policy],
                }[muts[0]]
                sx.check(klass(result.outcome) == "retry" and result.outcome.delay == delay, "retry-with-delay", info)
                if muts[0] in ("POST", "PATCH"):
                    sx.check(len(cluster.objects) == 1 and meets(goal, cluster.objects[0].doc, _last(cluster.objects[0].doc)) is not False,
                             "met-after-mutation", info)
                    quiet = True
                    if cfg.get("server", True) and sx.flag("server-touches"):
                        o = cluster.objects[0]
                        o.doc = merge_patch(o.doc, {"status": {"ready": True}, "spec": {"defaulted": 1}, "metadata": {"labels": {"srv": "x"}}})
                sx.reach(f"{policy}-{muts[0]}")
            else:
                sx.check(klass(result.outcome) == "ok", "ok-when-quiet", info)
                sx.check(len(cluster.objects) == 1 and meets(goal, cluster.objects[0].doc, _last(cluster.objects[0].doc)) is not False, "quiet-only-when-met", info)
                break
        else:
            sx.fail("update-loop", info)
        result, calls = await rig.step()
        sx.check(not [c for c in calls if c.mutating] and klass(result.outcome) == "ok", "stays-quiet", info)

    run(body())


def _last(doc):
    t = doc.get("metadata", {}).get("annotations", {}).get(LAST_APPLIED)
    return json.loads(t) if t else None


SHAPES["lastitems"] = (
    {"spec": {"l": [{"x-koreo-compare-last-applied": ["z"], "z": "=inputs.a"}, {"x-koreo-compare-last-applied": ["z"], "z": "=inputs.b", "y": [["=inputs.a"]]}]}},
    dict(a=("text", "int"), b=("text",)),
)
BASIC = ["nested", "list", "listmap", "set", "map", "mapset", "labels", "last", "lastlist", "lastset", "dirnested", "null", "emptylist", "stale", "refs"]

HARNESSES = [
    Harness("met", met, quick=[dict(shape=s) for s in ("nested", "list", "set", "map", "labels", "last", "lastlist", "lastset", "lastitems", "dirnested")],
            thorough=[dict(shape=s, all=True, touches=4) for s in SHAPES if s not in ("null", "nulls", "topnull")],
            reach=("returned", "postcondition"),
            bounds="target shapes up to 3 levels, set/map lists of up to 3 members in any order, extra server fields in every map, any annotation state, 0..2 owners"),
    Harness("fixpoint", fixpoint, quick=[dict(shape=s) for s in BASIC], thorough=[dict(shape=s, all=True) for s in SHAPES],
            reach=("patch-POST", "patch-PATCH", "recreate-DELETE", "recreate-POST", "default-PATCH"),
            bounds="start absent/bare/unowned/stripped, all delays configured, up to 6 passes"),
]
