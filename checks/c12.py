"""C12: targets and returns are ordered deep merges; evaluation is pure."""
import functools

from sx.main import Harness

from checks.rflib import *


# ------------------------------------------------------------------- reference
def merge(base, over):
    """Maps merge key by key, every other value (empty maps included) replaces."""
    out = dict(base)
    for k, v in over.items():
        if isinstance(v, dict) and v:
            b = out.get(k)
            out[k] = merge(b if isinstance(b, dict) else {}, v)
        else:
            out[k] = v
    return out


# ------------------------------------------------------------------- shapes
@functools.lru_cache(None)
def forests(leaves, depth):
    """All ordered forests with exactly `leaves` leaves and at most `depth`
    levels; a node is None (leaf) or a tuple of nodes."""
    if leaves == 0:
        return ((),)
    out = []
    for first in range(1, leaves + 1):
        heads = []
        if first == 1:
            heads.append(None)
        if depth > 1:
            heads.extend(f for f in forests(first, depth - 1))
        for h in heads:
            for rest in forests(leaves - first, depth):
                out.append((h, *rest))
    return tuple(out)


KEYS = ("a", "b", "c", "d", "e", "f")
SPECIAL = ("expr", "literal", "null", "list", "empty", "number", "resource", "local", "computed-list")


class Gen:
    """Builds the overlay, what it evaluates to, and the base under it."""

    def __init__(self, sx, cfg, inputs, tag=""):
        self.sx, self.cfg, self.inputs, self.tag = sx, cfg, inputs, tag
        self.n = 0
        self.special = None

    def leaf(self):
        """-> (definition, value)"""
        i, self.n = self.n, self.n + 1
        name = f"{self.tag}v{i}"
        kind = self.special[1] if self.special and self.special[0] == i else "expr"
        if kind == "expr":
            v = self.inputs[name] = self.sx.text(name)
            return f"=inputs.{name}", v
        if kind == "literal":
            return f"static {name}", f"static {name}"
        if kind == "null":
            return None, None
        if kind == "number":
            return 40 + i, 40 + i
        if kind == "empty":
            return {}, {}
        if kind == "list":
            v = self.inputs[name] = self.sx.text(name)
            return [f"=inputs.{name}", {"k": f"=inputs.{name}"}, []], [v, {"k": v}, []]
        if kind == "computed-list":
            v = self.sx.text(name)
            self.inputs[name] = [v]
            return f"=inputs.{name}", [v]
        if kind == "resource":
            return "=resource.keep", self.keep
        if kind == "local":
            return "=locals.l", self.local
        raise AssertionError(kind)

    def overlay(self, shape, base_names):
        """-> (definition, evaluated, base map under it)."""
        sx = self.sx
        definition, value, base = {}, {}, {}
        for i, node in enumerate(shape):
            k = KEYS[i]
            under = sx.choice(f"{self.tag}base-{base_names}{k}", self.cfg.get("unders", ("absent", "scalar", "map")))
            if node is None:
                definition[k], value[k] = self.leaf()
                sub = {"x": "base x"}
            else:
                definition[k], value[k], sub = self.overlay(node, base_names + k)
                sub["only-base"] = "kept"
            if under == "scalar":
                base[k] = f"base {base_names}{k}"
            elif under == "list":
                base[k] = [sub]
            elif under == "null":
                base[k] = None
            elif under == "map":
                base[k] = sub
        return definition, value, base


def documents(sx, cfg, inputs, tag="", keep="kept", local="local"):
    g = Gen(sx, cfg, inputs, tag)
    g.keep, g.local = keep, local
    shapes = cfg_shapes(cfg)
    shape = sx.choice(f"{tag}shape", shapes)
    n = leaves_of(shape)
    specials = cfg.get("specials", SPECIAL)
    if specials:
        pos = sx.choice(f"{tag}special-at", tuple(range(n)))
        g.special = (pos, sx.choice(f"{tag}special", specials))
    return g.overlay(shape, "")


def leaves_of(shape):
    return sum(1 if n is None else leaves_of(n) for n in shape)


def cfg_shapes(cfg):
    out = forests(cfg["leaves"], cfg.get("depth", 3))
    part = cfg.get("part")
    return out if part is None else out[part[0]::part[1]]


# ------------------------------------------------------------------- harnesses
def snapshot(v):
    return repr(deepcopy_plain(convert(v)))


def convert(v):
    """CEL containers as plain ones, leaves untouched."""
    if isinstance(v, dict):
        return {convert(k): convert(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [convert(x) for x in v]
    return v


def frozen(v):
    """A structural copy to compare with later."""
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    return v


def value_function(sx, cfg):
    async def body():
        fresh()
        inputs = {}
        local = inputs["lo"] = sx.text("lo")
        definition, value, base = documents(sx, cfg, inputs, local=local)
        base["keep"] = "kept"
        f = await offer(ValueFunction, "vf", {"locals": {"l": "=inputs.lo"}, "return": definition})
        if klass(f) != "ok":
            raise AssertionError(f)
        sx.note(definition=definition, base=base, inputs=inputs)
        want = merge(base, value)
        cin, cbase = cel(inputs), cel(base)
        in0, base0 = frozen(cin), frozen(cbase)
        fn0 = snapshot(f.return_value.value_index) if hasattr(f, "return_value") and hasattr(f.return_value, "value_index") else None
        outs = []
        for i in range(2):
            out = await aguarded(sx, "crash", reconcile_value_function("loc", f, cin, value_base=cbase))
            outs.append(out)
            sx.check(klass(out) == "ok", "fails", lambda: f"{definition} over {base} -> {out}")
            sx.check(strict_equal(out, want), "merge" if i == 0 else "not-repeatable",
                     lambda: f"return={definition} base={base} want={deepcopy_plain(want)} got={deepcopy_plain(out)}")
            sx.check(strict_equal(cin, in0), "inputs-modified", lambda: f"{definition}: {deepcopy_plain(in0)} -> {deepcopy_plain(cin)}")
            sx.check(strict_equal(cbase, base0), "base-modified", lambda: f"{definition}: {deepcopy_plain(base0)} -> {deepcopy_plain(cbase)}")
        sx.check(strict_equal(outs[0], want), "result-modified-later", lambda: f"{deepcopy_plain(outs[0])}")
        if fn0 is not None:
            sx.check(snapshot(f.return_value.value_index) == fn0, "function-modified", lambda: fn0)
        # other inputs do not remember these
        other = {k: ([sx.text("other")] if isinstance(v, list) else sx.text("other")) for k, v in inputs.items()}
        await aguarded(sx, "crash", reconcile_value_function("loc", f, cel(other), value_base=cel({"keep": "z"})))
        again = await aguarded(sx, "crash", reconcile_value_function("loc", f, cel(inputs), value_base=cel(base)))
        sx.check(strict_equal(again, want), "remembers", lambda: f"{deepcopy_plain(again)} want {deepcopy_plain(want)}")
        sx.observe(convert(outs[0]))
        sx.reach("merged")
        if any(isinstance(v, dict) and v for v in value.values()):
            sx.reach("nested")

    run(body())


def target_function(sx, cfg):
    """Inline resource / template, then overlays, as the POST body."""

    async def body():
        fresh()
        k = KINDS["ns"]
        inputs = {"who": "one"}
        local = inputs["lo"] = sx.text("lo")
        base_how = sx.choice("base", cfg.get("bases", ("inline", "template", "computed-template")))
        state = {}  # evaluated spec so far
        overlays, evaluated = [], []
        expected = None
        docs = []
        base_spec = {}
        for i in range(cfg["n"]):
            how = sx.choice(f"o{i}-how", cfg.get("hows", ("inline", "function")))
            g_cfg = dict(cfg, specials=cfg.get("specials") if i == cfg["n"] - 1 or cfg.get("all_special") else ())
            definition, value, base = documents(sx, g_cfg, inputs, tag=f"o{i}", local=local, keep="kept")
            if i == 0:
                base_spec = base
            docs.append((how, definition, value))
        base_spec["keep"] = "kept"
        base_doc = {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": {"labels": {"from": "base"}}, "spec": base_spec, "top": ["t"]}
        target = merge(base_doc, {"metadata": {"name": "widget-1", "namespace": "team-a"}})

        for i, (how, definition, value) in enumerate(docs):
            text = inputs[f"t{i}"] = sx.text(f"t{i}")
            # every overlay also records what it saw of the previous result
            probe_key = f"saw{i}"
            wrap = {"spec": definition, probe_key: "=resource.spec.keep", "metadata": {"labels": {"mark": f"=inputs.t{i}"}}}
            wrapped = {"spec": value, probe_key: "kept", "metadata": {"labels": {"mark": text}}}
            if i > 0:
                wrap["previous"] = "=resource.metadata.labels.mark" if not skipped_all else "=resource.metadata.labels.from"
            skip = sx.choice(f"o{i}-skip", cfg.get("skips", ("none", "flag")))
            skipped = False
            entry = {}
            if how == "inline":
                entry["overlay"] = fix_resource(wrap)
            else:
                name = f"overlay-{i}"
                vf = {"locals": {"l": "=inputs.lo"}, "return": fix_resource(wrap)}
                r = await offer(ValueFunction, name, vf)
                if klass(r) != "ok":
                    raise AssertionError(r)
                entry["overlayRef"] = {"kind": "ValueFunction", "name": name}
                entry["inputs"] = {n: f"=inputs.{n}" for n in inputs}
            if skip == "flag":
                skipped = sx.flag(f"skip{i}")
                inputs[f"skip{i}"] = skipped
                entry["skipIf"] = f"=inputs.skip{i}"
            overlays.append(entry)
            if not skipped:
                if i > 0:
                    wrapped["previous"] = target["metadata"]["labels"]["from" if skipped_all else "mark"]
                target = merge(target, wrapped)
            else:
                sx.reach("skipped")
            skipped_all = (skipped if i == 0 else skipped_all and skipped)
        extra = {"overlays": overlays, "locals": {"l": "=inputs.lo"}}
        templates = []
        if base_how == "inline":
            spec = rf_spec(base_doc, **extra)
        else:
            t = await offer(ResourceTemplate, "tpl-one", {"template": base_doc})
            if klass(t) != "ok":
                raise AssertionError(t)
            templates.append(t)
            name = "tpl-one" if base_how == "template" else "='tpl-' + inputs.who"
            spec = rf_spec(None, resourceTemplateRef={"name": name}, **extra)
        target = merge(target, {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": {"name": "widget-1", "namespace": "team-a"}})
        sx.note(spec=spec, inputs=inputs, base=base_doc)

        tpl0 = [frozen(t.template) for t in templates]
        posts = []
        for i in range(2):
            rig = Rig(sx, spec, inputs=inputs)
            if i == 0:
                await rig.prepare()
                fn = rig.function
            rig.function = fn
            cin = cel(inputs)
            in0 = frozen(cin)
            r = await aguarded(sx, "crash", reconcile_resource_function(
                api=rig.cluster, location="loc", function=fn, owner=(OWNER_NS, OWNER_REF), inputs=cin))
            calls = [c for c in rig.cluster.log if c.mutating]
            sx.check([c.verb for c in calls] == ["POST"], "not-created", lambda: f"{spec} {deepcopy_plain(inputs)} -> {r.outcome}")
            bodyd = copy.deepcopy(calls[0].data)
            bodyd["metadata"].pop("ownerReferences", None)
            bodyd["metadata"].pop("annotations", None)
            sx.check(strict_equal(bodyd, target), "target" if i == 0 else "not-repeatable",
                     lambda: f"overlays={overlays} base={base_doc} inputs={deepcopy_plain(inputs)} want={deepcopy_plain(target)} got={deepcopy_plain(bodyd)}")
            sx.check(strict_equal(cin, in0), "inputs-modified", lambda: f"{deepcopy_plain(in0)} -> {deepcopy_plain(cin)}")
            for t, t0 in zip(templates, tpl0):
                sx.check(strict_equal(t.template, t0), "template-modified",
                         lambda: f"{deepcopy_plain(t0)} -> {deepcopy_plain(t.template)}")
            posts.append(bodyd)
            # a second pass over the created object (the comparing path) is pure too
            r = await aguarded(sx, "crash", reconcile_resource_function(
                api=rig.cluster, location="loc", function=fn, owner=(OWNER_NS, OWNER_REF), inputs=cin))
            sx.check(strict_equal(cin, in0), "inputs-modified", lambda: f"{deepcopy_plain(in0)} -> {deepcopy_plain(cin)}")
            for t, t0 in zip(templates, tpl0):
                sx.check(strict_equal(t.template, t0), "template-modified",
                         lambda: f"{deepcopy_plain(t0)} -> {deepcopy_plain(t.template)}")
        sx.observe(posts[0])
        sx.reach(f"base-{base_how}")

    run(body())


def fix_resource(wrap):
    """`=resource.keep` leaves refer to the spec here."""
    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        return "=resource.spec.keep" if v == "=resource.keep" else v

    return go(wrap)


# ------------------------------------------------------------- CEL functions
CALLS = {
    "overlay": "overlay(inputs.m, inputs.n)",
    "overlay-literal": "overlay(inputs.m, {'deep': {'new': inputs.t}, 'gone': null})",
    "overlay-twice": "overlay(overlay(inputs.m, inputs.n), {'deep': {'x': 1}})",
    "flatten": "flatten(inputs.lists)",
    "flatten-self": "flatten([inputs.lists[0], inputs.lists[1], inputs.lists[0]])",
    "to_ref": "to_ref(inputs.obj)",
    "self_ref": "self_ref(inputs.res)",
    "group_ref": "group_ref(inputs.obj)",
    "kindless_ref": "kindless_ref(inputs.obj)",
    "ready": "config_connect_ready(inputs.res)",
    "to_json": "to_json(inputs.m)",
    "map": "inputs.lists.map(x, x + [inputs.t])",
    "filter": "inputs.lists.filter(x, size(x) > 1)",
    "concat": "inputs.lists[0] + inputs.lists[1]",
    "alias": "inputs.m",
    "alias-list": "[inputs.m, inputs.m, inputs.lists]",
}


def functions(sx, cfg):
    async def body():
        fresh()
        call = cfg["call"]
        t, u = sx.text("t"), sx.text("u")
        res = {"apiVersion": "g.dev/v1", "kind": "Widget", "metadata": {"name": t, "namespace": u, "labels": {"l": t}},
               "status": {"conditions": [{"type": "Ready", "reason": "UpToDate", "status": "True"}, {"type": "Other"}]}}
        m = {"deep": {"x": t, "y": [u]}, "gone": {"z": 1}}
        n = {"deep": {"x": u, "w": {}}, "more": [t]}
        for key in ("deep", "gone"):
            if sx.flag(f"drop-{key}"):
                m.pop(key)
        if sx.flag("scalar-deep"):
            m["deep"] = t
        obj = {"apiVersion": "g.dev/v1", "kind": "K"}
        ext = sx.choice("ref", ("external", "name", "name-ns"))
        if ext == "external":
            obj["external"] = t
        else:
            obj["name"] = t
            if ext == "name-ns":
                obj["namespace"] = u
        inputs = {"m": m, "n": n, "t": t, "lists": [[t], [u, t], []], "obj": obj, "res": res}
        f = await offer(ValueFunction, "vf", {"locals": {"l": f"={CALLS[call]}"}, "return": {"r": f"={CALLS[call]}", "l": "=locals.l", "twice": f"=[{CALLS[call]}, {CALLS[call]}]"}})
        if klass(f) != "ok":
            raise AssertionError(f)
        cin = cel(inputs)
        in0 = frozen(cin)
        outs = [await aguarded(sx, "crash", reconcile_value_function("loc", f, cin)) for _ in range(2)]
        sx.note(call=CALLS[call], inputs=inputs)
        sx.check(klass(outs[0]) == "ok", "fails", lambda: f"{CALLS[call]} {outs[0]}")
        sx.check(strict_equal(cin, in0), "inputs-modified", lambda: f"{CALLS[call]}: {deepcopy_plain(in0)} -> {deepcopy_plain(cin)}")
        sx.check(strict_equal(outs[0], outs[1]), "not-repeatable", lambda: f"{CALLS[call]}: {outs[0]} then {outs[1]}")
        o = outs[0]
        sx.check(strict_equal(o["r"], o["l"]) and strict_equal(o["twice"][0], o["r"]) and strict_equal(o["twice"][1], o["r"]),
                 "not-repeatable", lambda: f"{CALLS[call]}: {o}")
        want = reference(call, inputs)
        if want is not None:
            sx.check(strict_equal(o["r"], want), "value", lambda: f"{CALLS[call]} {deepcopy_plain(inputs)} want {deepcopy_plain(want)} got {deepcopy_plain(o['r'])}")
        sx.observe(convert(o))
        sx.reach("called")

    run(body())


def reference(call, i):
    m, n, t = i["m"], i["n"], i["t"]

    def computed(base, over):
        out = dict(base)
        for k, v in over.items():
            b = out.get(k)
            out[k] = computed(b, v) if isinstance(v, dict) and isinstance(b, dict) else v
        return out

    if call == "overlay":
        return computed(m, n)
    if call == "overlay-literal":
        return computed(m, {"deep": {"new": t}, "gone": None})
    if call == "overlay-twice":
        return computed(computed(m, n), {"deep": {"x": 1}})
    if call == "flatten":
        return [x for l in i["lists"] for x in l]
    if call == "alias":
        return m
    return None


UNDERS = ("absent", "scalar", "map", "list", "null")
TRIMMED = ("expr", "empty", "resource", "list")
HARNESSES = [
    Harness("value", value_function,
            quick=[dict(leaves=1), dict(leaves=2), dict(leaves=3, specials=(), unders=("absent", "map"))]
            + [dict(leaves=3, specials=TRIMMED, unders=("map",), depth=2)]
            + [dict(leaves=4, specials=(), unders=("map",))],
            thorough=[dict(leaves=1, unders=UNDERS), dict(leaves=2, unders=UNDERS), dict(leaves=3, depth=3),
                      dict(leaves=4, specials=(), unders=("absent", "map")), dict(leaves=5, specials=(), unders=("map",), depth=3)],
            reach=("merged", "nested"),
            bounds="returns of 1..4 (thorough 5) leaves in every ordered tree of depth <=3; base absent/scalar/map (thorough also list/null) under every node; "
                   "leaves symbolic texts, one of them any of: literal, null, list, empty map, number, resource/locals reference, computed list"),
    Harness("target", target_function,
            quick=[dict(n=1, leaves=2, depth=2, specials=TRIMMED, unders=("absent", "map")),
                   dict(n=2, leaves=1, depth=2, specials=("empty", "resource"), unders=("map",)),
                   dict(n=2, leaves=2, depth=2, specials=(), unders=("map",), bases=("template",), skips=("none",)),
                   dict(n=3, leaves=1, depth=1, specials=(), unders=("map",), bases=("inline", "template"))],
            thorough=[dict(n=1, leaves=3, depth=3, specials=TRIMMED, unders=("absent", "map")),
                      dict(n=2, leaves=2, depth=2, specials=TRIMMED, unders=("absent", "map")),
                      dict(n=3, leaves=1, depth=2, specials=SPECIAL, unders=("absent", "map"))],
            reach=("base-inline", "base-template", "base-computed-template", "skipped"),
            bounds="1..3 overlays, inline or function, each skipped or not; inline, static and computed template bases; POST body; two passes per function"),
    Harness("functions", functions, quick=[dict(call=c) for c in CALLS], reach=("called",),
            bounds="every koreo CEL function that takes a structure, called three times per evaluation"),
]
