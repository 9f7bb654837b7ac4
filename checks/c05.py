"""C05: drift in any target-specified field triggers the configured correction.
(also the body of C04's one-pass harness)"""
import json

from sx.main import Harness

from checks.rflib import *

MISSING = object()
KINDS_ALL = ("text", "int", "bool", "null", "float", "empty", "map", "list")


class Budget:
    def __init__(self, n):
        self.n = n

    def spend(self):
        self.n -= 1
        return True


def derive(sx, name, t, b, member, rich):
    """A live value for target value `t`, deviating at most b.n times."""
    if isinstance(t, dict):
        opts = ["keep"]
        if b.n > 0:
            opts += ["retype"] + (["missing"] if member else [])
        how = sx.choice(f"{name}~", opts)
        if how == "missing":
            b.spend()
            return MISSING
        if how == "retype":
            b.spend()
            return sx.leaf(f"{name}!", ("text", "int", "true", "null", "list"))
        out = {}
        for k, v in t.items():
            if k in DIRECTIVES:
                continue
            r = derive(sx, f"{name}.{k}", v, b, True, rich)
            if r is not MISSING:
                out[k] = r
        if rich and sx.flag(f"{name}+extra"):
            out["zz-extra"] = sx.leaf(f"{name}+extra", ("text", "null", "map"))
        return out
    if isinstance(t, (list, tuple)):
        opts = ["keep"]
        if b.n > 0:
            opts += ["drop", "append", "swap", "retype"] + (["missing"] if member else [])
        how = sx.choice(f"{name}~", opts)
        if how == "missing":
            b.spend()
            return MISSING
        if how == "retype":
            b.spend()
            return sx.leaf(f"{name}!", ("text", "int", "false", "null", "map"))
        out = []
        drop = -1
        if how in ("append", "swap"):
            b.spend()
        if how == "drop":
            if not t:
                raise PathEnd()
            b.spend()
            drop = sx.choice(f"{name}-at", tuple(range(len(t))))
        for i, v in enumerate(t):
            if i == drop:
                continue
            out.append(derive(sx, f"{name}[{i}]", v, b, False, rich))
        if how == "append":
            kind = sx.choice(f"{name}+kind", ("text", "int", "bool", "null", "map", "item"))
            if kind == "item":
                if not t or not isinstance(t[0], dict):
                    raise PathEnd()
                extra = {k: sx.leaf(f"{name}+.{k}", ("text", "int", "true")) for k in t[0] if k not in DIRECTIVES}
            else:
                extra = sx.leaf_of(f"{name}+", kind)
            out.insert(sx.choice(f"{name}+at", tuple(range(len(out) + 1))), extra)
        if how == "swap":
            if len(out) < 2:
                raise PathEnd()
            i = sx.choice(f"{name}swap", tuple(range(len(out) - 1)))
            out[i], out[i + 1] = out[i + 1], out[i]
        return out
    opts = ["same"]
    if b.n > 0:
        opts += ["other"] + (["missing"] if member else [])
    how = sx.choice(f"{name}~", opts)
    if how == "same":
        return t
    b.spend()
    if how == "missing":
        return MISSING
    return sx.leaf(f"{name}!", KINDS_ALL)


# target shapes: (resource spec, input leaf names -> allowed kinds)
ANY = ("text", "int", "bool", "float", "empty")
SHAPES = {
    "nested": (
        {"spec": {"a": "=inputs.a", "m": {"b": "=inputs.b", "deep": {"c": "=inputs.c"}}}},
        dict(a=ANY, b=("text", "int"), c=("bool", "text")),
    ),
    "null": ({"spec": {"a": "=inputs.a", "m": {"b": "=inputs.b"}}}, dict(a=("null",), b=("null", "text"))),
    "list": ({"spec": {"l": ["=inputs.a", "=inputs.b"]}}, dict(a=ANY, b=("text", "int", "bool"))),
    "nulls": ({"spec": {"l": ["=inputs.a", None, "=inputs.b"], "n": None}}, dict(a=("null", "text"), b=("text",))),
    "topnull": ({"data": None, "spec": {"a": "=inputs.a"}, "more": "=inputs.b"}, dict(a=("null", "int"), b=("null", "float"))),
    "list3": ({"spec": {"l": ["=inputs.a", "=inputs.b", "=inputs.c"]}}, dict(a=("text", "int"), b=("bool", "text"), c=("int",))),
    "emptylist": ({"spec": {"l": [], "m": {}, "a": "=inputs.a"}}, dict(a=("text",))),
    "listmap": (
        {"spec": {"l": [{"n": "=inputs.a", "v": "=inputs.b"}, {"n": "=inputs.c"}]}},
        dict(a=("text",), b=("int", "bool"), c=("text",)),
    ),
    "listlist": ({"spec": {"l": [["=inputs.a"], ["=inputs.b", "=inputs.c"]]}}, dict(a=("text",), b=("int", "bool"), c=("text",))),
    "set": (
        {"spec": {"x-koreo-compare-as-set": ["l"], "l": ["=inputs.a", "=inputs.b"]}},
        dict(a=("text", "int", "bool", "null", "empty"), b=("text", "int", "true", "false")),
    ),
    "set3": (
        {"spec": {"x-koreo-compare-as-set": ["l"], "l": ["=inputs.a", "=inputs.b", "=inputs.c"], "o": "=inputs.a"}},
        dict(a=("text",), b=("text", "int"), c=("text", "int")),
    ),
    "set0": ({"spec": {"x-koreo-compare-as-set": ["l"], "l": [], "a": "=inputs.a"}}, dict(a=("text",))),
    "map": (
        {"spec": {"x-koreo-compare-as-map": {"l": ["n"]},
                  "l": [{"n": "=inputs.a", "v": "=inputs.b"}, {"n": "=inputs.c", "v": "=inputs.d"}]}},
        dict(a=("text",), b=("int", "bool"), c=("text",), d=("text", "int")),
    ),
    "map2": (
        {"spec": {"x-koreo-compare-as-map": {"l": ["n", "p"]},
                  "l": [{"n": "one", "p": "=inputs.a", "v": "=inputs.b"}, {"n": "two", "p": "=inputs.a", "v": "=inputs.c"}]}},
        dict(a=("int",), b=("text",), c=("text",)),
    ),
    "mapset": (
        {"spec": {"x-koreo-compare-as-map": {"l": ["n"]},
                  "l": [{"n": "one", "x-koreo-compare-as-set": ["s"], "s": ["=inputs.a", "=inputs.b"]}]}},
        dict(a=("text", "int"), b=("text",)),
    ),
    "labels": (
        {"metadata": {"labels": {"l": "=inputs.a"}, "annotations": {"note": "=inputs.b"}}, "spec": {"s": "=inputs.c"}},
        dict(a=("text", "empty"), b=("text",), c=("text", "false", "int")),
    ),
    "ownerfield": ({"spec": {"ownerReferences": "=inputs.a", "b": "=inputs.b"}}, dict(a=("text", "int"), b=("text",))),
    "ownernested": ({"spec": {"ownerReferences": [{"uid": "=inputs.a"}], "b": "=inputs.b"}}, dict(a=("text",), b=("text",))),
}


def build_inputs(sx, leaves, cel_values=False):
    out = {}
    for k, kinds in leaves.items():
        kind = sx.choice(f"in.{k}.kind", kinds)
        out[k] = sx.leaf_of(f"in.{k}", kind)
    return out


def fill(doc, inputs):
    if isinstance(doc, dict):
        return {k: fill(v, inputs) for k, v in doc.items()}
    if isinstance(doc, (list, tuple)):
        return [fill(v, inputs) for v in doc]
    if isinstance(doc, str) and doc.startswith("=inputs."):
        return inputs[doc[8:]]
    return doc


def identity(kind="ns", name="widget-1", ns="team-a"):
    k = KINDS[kind]
    meta = {"name": name}
    if k["namespaced"]:
        meta["namespace"] = ns
    return {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": meta}


def target_of(template, inputs, kind="ns"):
    t = fill(template, inputs)
    ident = identity(kind)
    meta = dict(t.get("metadata", {}))
    if LAST_APPLIED in meta.get("annotations", {}):  # koreo's own
        meta["annotations"] = {k: v for k, v in meta["annotations"].items() if k != LAST_APPLIED}
    meta.update(ident["metadata"])
    return {**t, "apiVersion": ident["apiVersion"], "kind": ident["kind"], "metadata": meta}


def server_extras(doc, owner=True):
    m = doc.setdefault("metadata", {})
    m["uid"] = "srv-uid"
    m["resourceVersion"] = "5"
    m["managedFields"] = [{"manager": "koreo"}]
    if owner:
        m["ownerReferences"] = [dict(OWNER_REF)]
    doc["status"] = {"phase": "Active", "ok": True}
    return doc


VARIANTS = {
    "few": (("patch", True), ("recreate", False)),
    "each": (("patch", False), ("recreate", True), ("never", False), ("default", True)),
}


def drift(sx, cfg):
    async def body():
        fresh()
        template, leaves = SHAPES[cfg["shape"]]
        if cfg.get("all"):
            policy, annotated = sx.choice("policy", ("patch", "recreate", "never", "default")), sx.flag("annotated")
        else:
            policy, annotated = sx.choice("variant", VARIANTS[cfg.get("variants", "few")])
        inputs = build_inputs(sx, leaves)
        target = target_of(template, inputs)
        spec = rf_spec(template, update=policy, ret={"seen": "=resource.metadata.name"})
        rig = Rig(sx, spec, inputs=inputs)
        await rig.prepare()
        keep = {k: v for k, v in target.items() if k not in ("spec",)}
        b = Budget(cfg["drift"])
        live = copy.deepcopy(identity())
        if cfg["shape"] == "topnull":
            rest = derive(sx, "t", {k: target[k] for k in ("data", "more")}, b, False, False)
            if not isinstance(rest, dict):
                raise PathEnd()
            live.update(rest)
        if cfg["shape"] == "labels":
            meta = derive(sx, "m", {k: v for k, v in target["metadata"].items() if k not in ("name", "namespace")}, b, False, False)
            if not isinstance(meta, dict):
                raise PathEnd()  # metadata itself is always a map
            for k in ("labels", "annotations"):
                if k in meta and not isinstance(meta[k], dict):
                    raise PathEnd()  # the API server types these
            live["metadata"].update(meta)
        s = derive(sx, "spec", target["spec"], b, True, cfg.get("rich", False))
        if s is not MISSING:
            live["spec"] = s
        server_extras(live)
        if annotated:
            # a previous koreo pass left its annotation
            meta = live["metadata"]
            if isinstance(meta.get("annotations", {}), dict):
                meta.setdefault("annotations", {})[LAST_APPLIED] = json.dumps(strip(target))
        before = copy.deepcopy(live)
        rig.cluster.put("widgets", "team-a", "widget-1", live)
        sx.note(shape=cfg["shape"], policy=policy, target=target, live=before)

        want = meets(target, before)
        result, calls = await rig.step()
        muts = [c for c in calls if c.mutating]
        verbs = [c.verb for c in muts]
        sx.observe(verbs, klass(result.outcome))
        info = lambda: f"policy={policy} target={deepcopy_plain(target)} live={deepcopy_plain(before)} -> {verbs} {result.outcome}"
        if want is UNSPEC:
            sx.reach("unspecified")
        elif want:
            sx.reach("meets")
            sx.check(not muts, "mutates-when-met", info)
            sx.check(klass(result.outcome) == "ok", "not-ok-when-met", info)
        else:
            sx.reach(f"drift-{policy}")
            if policy == "never":
                sx.check(not muts, "never-mutates", info)
                sx.check(klass(result.outcome) == "ok", "never-continues", info)
                return
            if policy == "recreate":
                sx.check(verbs == ["DELETE"], "recreate-deletes-once", info)
            else:
                sx.check(verbs == ["PATCH"], "patches-once", info)
                sx.check(covers(muts[0].data, strip(target)), "patch-carries-full-target",
                         lambda: f"target={deepcopy_plain(target)} patch={deepcopy_plain(muts[0].data)}")
            sx.check(
                klass(result.outcome) == "retry" and result.outcome.delay == DELAYS[policy],
                "retry-with-delay", info,
            )
        if muts and verbs == ["PATCH"]:
            stored = rig.cluster.objects[0].doc
            sx.check(meets(target, stored) is not False, "met-after-patch", lambda: f"{deepcopy_plain(stored)}")
            r2, calls2 = await rig.step()
            v2 = [c.verb for c in calls2 if c.mutating]
            sx.check(not v2, "update-loop", lambda: f"{info()} then {v2} on {deepcopy_plain(stored)}")
            sx.check(klass(r2.outcome) == "ok", "not-ok-after-patch", lambda: f"{info()} then {r2.outcome}")
            sx.reach("fixpoint")

    run(body())


def texts(sx, cfg):
    """Drift between texts that differ in any single character (or only in
    length), wherever a text can stand: field, list item, set member, map key."""

    async def body():
        fresh()
        where = cfg["where"]
        inputs = {}
        n = iter(range(99))

        def text(size, tag):
            t = sx.chars(tag, size)
            key = f"i{next(n)}"
            inputs[key] = t
            return f"=inputs.{key}", t

        def live(size, tag):
            return sx.chars(tag, size)

        # a live value of another type that code might take for the text
        odd = sx.choice("odd", (None, 0, 1, True, False, None.__class__, 1.5, [], {})) if cfg.get("odd") else None
        policy = sx.choice("policy", ("patch", "recreate"))
        if where == "key":
            fields = ["n", "p"][: cfg["fields"]]
            sizes = cfg["sizes"]
            template, want, have = [], [], []
            it = iter(sizes)
            for i in range(2):
                a, b = {}, {}
                for f in fields:
                    a[f], b[f] = text(next(it), f"t{i}{f}")
                template.append({**a, "v": f"v{i}"})
                want.append({**b, "v": f"v{i}"})
            same_keys = cfg.get("kept") or sx.flag("keys-kept")
            for i in range(2):
                item = {f: (want[i][f] if same_keys else live(sizes[i * len(fields) + j], f"l{i}{f}")) for j, f in enumerate(fields)}
                have.append({**item, "v": "v0" if sx.flag(f"v{i}-is-v0") else "v1"})
            spec_t = {"x-koreo-compare-as-map": {"l": fields}, "l": template}
            target_spec = {"x-koreo-compare-as-map": {"l": fields}, "l": want}
            live_spec = {"l": have if not sx.flag("reversed") else have[::-1]}
        else:
            ts, ls = cfg["sizes"]
            expr, t = text(ts, "t")
            l = live(ls, "l") if odd is None else (None if odd is type(None) else odd)
            if where == "field":
                spec_t, target_spec, live_spec = {"a": expr}, {"a": t}, {"a": l}
            elif where == "item":
                spec_t, target_spec, live_spec = {"a": [1, expr]}, {"a": [1, t]}, {"a": [1, l]}
            elif where == "set":
                e2, t2 = text(ts, "t2")
                d = {"x-koreo-compare-as-set": ["a"]}
                if isinstance(l, (list, dict)):
                    raise PathEnd()
                spec_t, target_spec, live_spec = {**d, "a": [expr, e2]}, {**d, "a": [t, t2]}, {"a": [t2, l]}
            elif where == "mapvalue":
                d = {"x-koreo-compare-as-map": {"a": ["n"]}}
                spec_t, target_spec, live_spec = {**d, "a": [{"n": "x", "v": expr}]}, {**d, "a": [{"n": "x", "v": t}]}, {"a": [{"n": "x", "v": l}]}
            elif where == "last":
                d = {"x-koreo-compare-last-applied": ["a"]}
                spec_t, target_spec, live_spec = {**d, "a": expr}, {**d, "a": t}, {"a": "whatever"}
            else:
                raise AssertionError(where)
        target = target_of({"spec": target_spec}, {})
        rig = Rig(sx, rf_spec({"spec": spec_t}, update=policy), inputs=inputs)
        await rig.prepare()
        doc = server_extras({**identity(), "spec": live_spec})
        last = None
        if where == "last":
            last = strip(target)
            last["spec"]["a"] = l
            doc["metadata"]["annotations"] = {LAST_APPLIED: json.dumps(last)}
        before = copy.deepcopy(doc)
        rig.cluster.put("widgets", "team-a", "widget-1", doc)
        want_met = meets(target, before, last)
        result, calls = await rig.step()
        verbs = [c.verb for c in calls if c.mutating]
        sx.observe(verbs, klass(result.outcome))
        info = lambda: f"policy={policy} target={deepcopy_plain(target)} live={deepcopy_plain(before)} -> {verbs} {result.outcome}"
        if want_met is UNSPEC:
            sx.reach("unspecified")
        elif want_met:
            sx.reach("text-meets")
            sx.check(not verbs, "mutates-when-met", info)
        else:
            sx.reach("text-drift")
            sx.check(verbs == [{"patch": "PATCH", "recreate": "DELETE"}[policy]], "text-drift-corrected", info)

    run(body())


TEXT_CFGS = (
    [dict(where=w, sizes=[a, b]) for w in ("field", "item", "set", "mapvalue") for a, b in ((0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2))]
    + [dict(where=w, sizes=[n, 0], odd=True) for w in ("field", "item", "set", "mapvalue") for n in (0, 1, 3, 4, 5)]
    + [dict(where="key", fields=1, sizes=s) for s in ([1, 1], [1, 2], [2, 2], [0, 1])]
    + [dict(where="key", fields=2, sizes=s, kept=True) for s in ([1, 1, 1, 1], [1, 2, 2, 1], [0, 1, 1, 0])]
)
TEXT_DEEP = TEXT_CFGS + [dict(where="key", fields=2, sizes=s) for s in ([1, 1, 1, 1], [1, 2, 2, 1], [3, 1, 1, 3])]


# ---- where a field may stand, and what it may be called -----------------------
def words():
    """Names a comparison could single out: every plain word the code under
    test has as a text constant, next to usual Kubernetes names."""
    import ast
    import re
    from pathlib import Path

    import koreo

    out = {"status", "data", "finalizers", "labels", "annotations", "metadata", "spec", "name", "namespace", "kind",
           "ownerReferences", "uid", "resourceVersion", "generation", "managedFields", "type", "value", "key"}
    root = Path(next(iter(koreo.__path__)))
    files = sorted((root / "resource_function").rglob("*.py")) + [root / "constants.py"]
    for f in files:
        for node in ast.walk(ast.parse(f.read_text())):
            if isinstance(node, ast.Constant) and isinstance(node.value, str) and re.fullmatch(r"[A-Za-z][A-Za-z0-9_.-]{0,24}", node.value):
                out.add(node.value)
    return tuple(sorted(w for w in out if not w.startswith("x-koreo")))


def at_map(*path):
    def build(name, v):
        doc = {name: v} if not isinstance(name, tuple) else dict(name[1], **{name[0]: v})
        for p in reversed(path):
            doc = {p: doc}
        return doc

    return build


def one(name, v, directives=()):
    return {**dict(directives), name: v}


def item_of(name, v, key="n"):
    return {key: "one", name: v}


PLACES = {
    # how the target's field `name` with value `v` is placed
    "top": lambda n, v: {n: v},
    "spec": lambda n, v: {"spec": {n: v}},
    "deep": lambda n, v: {"spec": {"a": {"b": {n: v}}}},
    "meta": lambda n, v: {"metadata": {n: v}},
    "label": lambda n, v: {"metadata": {"labels": {n: v}}},
    "note": lambda n, v: {"metadata": {"annotations": {n: v}}},
    "template": lambda n, v: {"spec": {"template": {"metadata": {n: v}}}},
    "innermeta": lambda n, v: {"spec": {"metadata": {n: v}}},
    "toplist": lambda n, v: {"things": [{"a": 1}, {n: v}]},
    "list": lambda n, v: {"spec": {"things": [{"a": 1}, {n: v}]}},
    "metalist": lambda n, v: {"metadata": {"things": [{n: v}]}},
    "listlist": lambda n, v: {"things": [[{n: v}]]},
    "topmap": lambda n, v: {"x-koreo-compare-as-map": {"things": ["n"]}, "things": [item_of(n, v)]},
    "map": lambda n, v: {"spec": {"x-koreo-compare-as-map": {"things": ["n"]}, "things": [{"n": "two"}, item_of(n, v)]}},
    "metamap": lambda n, v: {"metadata": {"x-koreo-compare-as-map": {"things": ["n"]}, "things": [item_of(n, v)]}},
    "metamapdeep": lambda n, v: {"metadata": {"x-koreo-compare-as-map": {"things": ["n"]}, "things": [item_of("in", {n: v})]}},
    "mapdir": lambda n, v: {"spec": {"x-koreo-compare-as-map": {n: ["n"]}, n: [{"n": "one", "v": v}]}},
    "setdir": lambda n, v: {"spec": {"x-koreo-compare-as-set": [n], n: ["one", v]}},
    "lastdir": lambda n, v: {"spec": {"x-koreo-compare-last-applied": [n], n: v}},
    "lastlist": lambda n, v: {"spec": {"things": [{n: "o", "x-koreo-compare-last-applied": [n]}, {n: v, "x-koreo-compare-last-applied": [n]}]}},
    "lastmap": lambda n, v: {"spec": {"x-koreo-compare-as-map": {"things": ["n"]}, "things": [{**item_of(n, v), "x-koreo-compare-last-applied": [n]}]}},
}


def typed_away(place, name):
    """Fields koreo or the API server own."""
    if place in ("top",):
        return name in ("apiVersion", "kind", "metadata", "ownerReferences")
    if place == "meta":
        return name in ("name", "namespace", "ownerReferences", "labels", "annotations", "uid", "resourceVersion", "managedFields")
    if place == "note":
        return name == LAST_APPLIED
    if place in ("topmap", "map", "metamap", "metamapdeep", "lastmap"):
        return name == "n"
    return False


def places(sx, cfg):
    """One field, under any name and anywhere in the target, drifts (or not);
    the live object also carries what a server adds to its metadata."""

    async def body():
        fresh()
        place = cfg["place"]
        few = ("status", "spec", "data", "finalizers", "field")
        # (every name with every variant in the thorough tier)
        policy, extra = sx.choice("variant", (("patch", "plain"), ("recreate", "deleting"), ("patch", "busy"), ("patch", "deleting"), ("recreate", "plain")))
        plain = cfg.get("all") or (policy, extra) == ("patch", "plain")
        name = sx.choice("name", tuple(w for w in (words() if plain else few) if not typed_away(place, w)))
        lists = ("text", "list") if place not in ("label", "note", "setdir") and (cfg.get("all") or name in few) else ("text",)
        kind = sx.choice("kind", lists)
        if kind == "list":
            v = [sx.text("v")]
        else:
            v = sx.leaf_of("v", kind)
        how = sx.choice("live", ("same", "other", "missing", "longer"))
        if how == "missing" and place in ("mapdir", "setdir"):
            how = "null"
        gone = object()
        if how == "same":
            lv = v
        elif how == "other":
            lv = [sx.text("l")] if kind == "list" else sx.leaf("l", ("text", "int", "true") if cfg.get("all") or name in few else ("text",))
        elif how == "null":
            lv = None
        elif how == "missing":
            lv = gone
        else:
            if kind != "list":
                raise PathEnd()
            lv = [*v, sx.text("l")]
        def build(n, x):  # (with fields that never drift)
            doc = PLACES[place](n, x)
            if place == "top" and n == "spec":
                return {**doc, "kept": {"a": [1]}}
            return {**doc, "spec": {"kept": "k", **doc.get("spec", {})}, "kept": {"a": [1]}}

        template = build(name, "=inputs.v")
        target = target_of(build(name, v), {})

        def without(doc):
            if isinstance(doc, dict):
                return {k: without(x) for k, x in doc.items() if x is not gone}
            return [without(x) for x in doc] if isinstance(doc, list) else doc

        live = strip(without(target_of(build(name, lv), {})))
        last = None
        if place.startswith("last"):
            last = copy.deepcopy(live)
            if place == "lastlist":
                last = {**last, "spec": {"things": [{name: "o"}, live["spec"]["things"][1]]}}
            live = strip(without(target_of(build(name, "server-made"), {})))
        server_extras(live)
        if place == "top" and name == "status":
            live["status"] = lv if lv is not gone else None
            if lv is gone:
                del live["status"]
        meta = live["metadata"]
        if extra == "deleting":
            meta.setdefault("deletionTimestamp", "2024-01-01T00:00:00Z")
            meta.setdefault("deletionGracePeriodSeconds", 0)
            meta.setdefault("finalizers", ["example.dev/hold"])
        elif extra == "busy":
            meta.setdefault("generation", 7)
            meta.setdefault("creationTimestamp", "2024-01-01T00:00:00Z")
            meta.setdefault("selfLink", "/x")
            if isinstance(live.get("status"), dict):
                live["status"] = {**live["status"], "observedGeneration": 3, "conditions": [{"type": "Ready", "status": "False"}]}
        if last is not None:
            meta.setdefault("annotations", {})[LAST_APPLIED] = json.dumps(last)
        want = meets(target, live, last)
        before = copy.deepcopy(live)
        rig = Rig(sx, rf_spec(template, update=policy, ret={"rv": "=resource.metadata.resourceVersion"}), inputs={"v": v})
        await rig.prepare()
        rig.cluster.put("widgets", "team-a", "widget-1", live)
        result, calls = await rig.step()
        muts = [c for c in calls if c.mutating]
        verbs = [c.verb for c in muts]
        sx.observe(verbs, klass(result.outcome))
        info = lambda: f"{place} {name!r} policy={policy} server={extra} target={deepcopy_plain(target)} live={deepcopy_plain(before)} -> {verbs} {result.outcome}"
        if want is UNSPEC:
            sx.reach("unspecified")
        elif want:
            sx.reach("place-meets")
            sx.check(not muts, "mutates-when-met", info)
            sx.check(klass(result.outcome) == "ok", "not-ok-when-met", info)
        else:
            sx.reach("place-drift")
            sx.check(verbs == [{"patch": "PATCH", "recreate": "DELETE"}[policy]], "drift-corrected", info)
            sx.check(klass(result.outcome) == "retry" and result.outcome.delay == DELAYS[policy], "retry-with-delay", info)
            if verbs == ["PATCH"]:
                sx.check(covers(muts[0].data, strip(target)), "patch-carries-full-target",
                         lambda: f"target={deepcopy_plain(target)} patch={deepcopy_plain(muts[0].data)}")

    run(body())



def cfgs(drift, shapes=None, **kw):
    return [dict(shape=s, drift=drift, **kw) for s in (shapes or SHAPES)]


HARNESSES = [
    Harness("places", places, quick=[dict(place=p) for p in PLACES], thorough=[dict(place=p, all=True) for p in PLACES],
            reach=("place-meets", "place-drift"),
            bounds="one target field under any name among the text constants of koreo's resource_function code and usual Kubernetes names, "
                   "at 21 kinds of position (top level, metadata, labels, lists, directed lists, last-applied), value a text or a list of one text; "
                   "live value the same, another, missing or longer; live object plain, being deleted, or with status/generation"),
    Harness("texts", texts, quick=TEXT_CFGS, thorough=TEXT_DEEP, reach=("text-meets", "text-drift"),
            bounds="texts of 0..3 symbolic characters (any Unicode) as field, list item, set member, value in a map-directed list and as map key of one or two fields; live value another text or a value of another type"),
    Harness("drift", drift, quick=[dict(c, variants="each" if c["shape"] in ("nested", "list", "labels", "emptylist") else "few") for c in cfgs(1)],
            thorough=cfgs(2, all=True) + cfgs(1, rich=True, all=True),
            reach=("meets", "drift-patch", "drift-recreate", "drift-never", "drift-default", "fixpoint"),
            bounds="target shapes: nested maps, lists, lists of maps/lists, set- and map-directed lists, labels; leaves symbolic "
                   "text/int/bool/null/float; live object deviates at up to 1 (thorough 2) places"),
]
