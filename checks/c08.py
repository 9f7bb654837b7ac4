"""C08: payloads are clean."""
import json

from sx.main import Harness

from checks.rflib import *
from checks.c05 import PLACES, build_inputs, typed_away, words

SET, MAP, LAST = "x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied"


def directive_doc(sx, tag, inputs):
    """A fragment with directives somewhere."""
    where = sx.choice(f"{tag}-where", (
        "top", "spec", "deep", "list", "listlist", "metadata", "computed", "computedlist", "all", "mapitem", "lastnested",
    ))
    a = f"=inputs.{tag}a"
    inputs[f"{tag}a"] = sx.text(f"{tag}a")
    if where == "top":
        return {SET: ["finalizers"], MAP: {"x": ["n"]}, LAST: ["y"], "data": {"v": a}}
    if where == "spec":
        return {"spec": {SET: ["s"], "s": [a, "lit"], MAP: {"m": ["n"]}, "m": [{"n": a}]}}
    if where == "deep":
        return {"spec": {"d": {"e": {"f": {LAST: ["g"], "g": a, "h": {SET: [], MAP: {}, LAST: []}}}}}}
    if where == "list":
        return {"spec": {"l": [{SET: ["s"], "s": [a]}, a, None, {"n": {MAP: {"q": ["r"]}}}]}}
    if where == "listlist":
        return {"spec": {"l": [[{LAST: ["x"], "x": a}], [[{SET: ["t"], "t": []}]]]}}
    if where == "metadata":
        return {"metadata": {SET: ["finalizers"], "finalizers": [a], "labels": {SET: ["odd"], "l": a}}}
    if where == "computed":
        inputs[f"{tag}m"] = {SET: ["s"], "s": [inputs[f"{tag}a"]], "in": {LAST: ["z"], "z": 1}}
        return {"spec": {"c": f"=inputs.{tag}m"}}
    if where == "computedlist":
        inputs[f"{tag}m"] = [{MAP: {"s": ["k"]}, "s": [{"k": inputs[f"{tag}a"], SET: ["w"]}]}]
        return {"spec": {"c": f"=inputs.{tag}m", "viaMacro": f"=inputs.{tag}m.map(x, x)"}}
    if where == "mapitem":
        return {"spec": {MAP: {"m": ["n"]}, "m": [{"n": "one", SET: ["s"], "s": [a], MAP: {"k": ["v"]}, "k": [{"v": a, LAST: ["v"]}]}]}}
    if where == "lastnested":
        return {"spec": {LAST: ["p"], "p": {LAST: ["q"], "q": {SET: ["r"], "r": [a]}}}}
    return {SET: ["a"], "spec": {SET: ["a"], MAP: {"b": ["c"]}, LAST: ["d"], "a": [a], "b": [{"c": a, SET: ["i"], "i": []}], "d": {MAP: {}}}}


def find_directive(doc, path=""):
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k in DIRECTIVES:
                return f"{path}.{k}"
            r = find_directive(v, f"{path}.{k}")
            if r:
                return r
    if isinstance(doc, (list, tuple)):
        for i, v in enumerate(doc):
            r = find_directive(v, f"{path}[{i}]")
            if r:
                return r
    return None


def truthful(body):
    """The annotation is the JSON of the body without the annotation."""
    meta = body.get("metadata")
    ann = meta.get("annotations") if isinstance(meta, dict) else None
    if not isinstance(ann, dict) or LAST_APPLIED not in ann:
        return False
    try:
        said = json.loads(ann[LAST_APPLIED])
    except Exception:
        return False
    rest = {k: v for k, v in ann.items() if k != LAST_APPLIED}
    bare = {**body, "metadata": {**meta, "annotations": rest}}
    if strict_equal(said, bare):
        return True
    if not rest:
        bare = {**body, "metadata": {k: v for k, v in meta.items() if k != "annotations"}}
        return strict_equal(said, bare)
    return False


def check_body(sx, body, info):
    sx.check(find_directive(body) is None, "directive-sent", info)
    sx.check(truthful(body), "last-applied", info)


def clean(sx, cfg):
    """Directives entering through every layer, on create and patch."""

    async def body():
        fresh()
        layers = cfg["layer"].split("+")
        inputs, extra = {}, {}
        resource = {"spec": {"base": "1"}}
        if "inline" in layers:
            resource = directive_doc(sx, "r", inputs)
        if "template" in layers:
            doc = static(directive_doc(sx, "t", inputs))
            t = await offer(ResourceTemplate, "tpl", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", **doc}})
            if klass(t) != "ok":
                raise AssertionError(t)
            resource, extra["resourceTemplateRef"] = None, {"name": "tpl"}
        ovs = []
        if "overlayRef" in layers:
            doc = directive_doc(sx, "v", inputs)
            f = await offer(ValueFunction, "vf", {"return": doc})
            if klass(f) != "ok":
                raise AssertionError(f)
            ovs.append({"overlayRef": {"kind": "ValueFunction", "name": "vf"},
                        "inputs": {k: f"=inputs.{k}" for k in inputs if k[0] == "v"}})
        if "overlay" in layers:
            ovs.append({"overlay": directive_doc(sx, "o", inputs)})
        if ovs:
            extra["overlays"] = ovs
        create = {"overlay": directive_doc(sx, "c", inputs)} if "create" in layers else None
        note = sx.choice("annotations", (None, "other", "stale", "stale+other", "computed"))
        if note:
            anns = {}
            if "other" in note:
                anns["note"] = "=inputs.note"
                inputs["note"] = sx.text("note")
            if "stale" in note:
                anns[LAST_APPLIED] = '{"was": "here"}'
            if note == "computed":
                inputs["anns"] = {"n": sx.text("note"), LAST_APPLIED: "{}"}
                anns = "=inputs.anns"
            if resource is not None:
                meta = resource.setdefault("metadata", {})
                meta["annotations"] = anns
            else:
                extra.setdefault("overlays", []).append({"overlay": {"metadata": {"annotations": anns}}})
        spec = rf_spec(resource, update="patch", create=create, **extra)
        rig = Rig(sx, spec, inputs=inputs)
        await rig.prepare()
        sx.note(layer=cfg["layer"], spec=spec)
        for verb in ("POST", "PATCH"):
            if verb == "PATCH":
                # somebody wiped the object's content
                for o in rig.cluster.objects:
                    o.doc = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget",
                             "metadata": {"name": "widget-1", "namespace": "team-a", "uid": "u", "resourceVersion": "3",
                                          **({"annotations": {LAST_APPLIED: "{}", "keep": "x"}} if sx.flag("live-annotated") else {})}}
            result, calls = await rig.step()
            muts = [c for c in calls if c.mutating]
            info = lambda: f"spec={spec} inputs={deepcopy_plain(inputs)} -> {deepcopy_plain([tuple(c) for c in muts])} {result.outcome}"
            sx.observe([c.verb for c in muts], klass(result.outcome))
            sx.check([c.verb for c in muts] == [verb], "acts", info)
            check_body(sx, muts[0].data, info)
            sx.reach(verb)

    run(body())


def static(doc):
    if isinstance(doc, dict):
        return {k: static(v) for k, v in doc.items()}
    if isinstance(doc, list):
        return [static(v) for v in doc]
    return "lit" if isinstance(doc, str) and doc.startswith("=") else doc


def ref(uid, name="o"):
    return {"apiVersion": "v1", "kind": "Owner", "name": name, "uid": uid}


def uids(refs):
    return [r.get("uid") for r in refs] if isinstance(refs, (list, tuple)) else []


def has(uid_list, uid):
    return any(strict_equal(u, uid) for u in uid_list)


def owners(sx, cfg):
    """Owner references on create and patch."""

    async def body():
        fresh()
        kind = sx.choice("kind", ("ns", "cluster"))
        k = KINDS[kind]
        owned = sx.choice("owned", (None, True, False))
        inputs = {"v": sx.text("v"), "ns": sx.text("obj-ns")}
        owner_ns = sx.text("owner-ns")
        parent = {**OWNER_REF, "uid": sx.text("parent-uid"), "name": sx.text("parent-name")}
        # owner references the definition itself asks for
        target_refs = sx.choice("target-refs", (None, "one", "two", "empty", "computed", "parent", "null", "computed-null") if cfg.get("target") else (None,))
        resource = {"spec": {"v": "=inputs.v"}}
        want = []
        if target_refs == "one":
            inputs["u"] = sx.text("t-uid")
            want = [ref(inputs["u"])]
            resource["metadata"] = {"ownerReferences": [ref("=inputs.u")]}
        elif target_refs == "two":
            inputs["u"] = sx.text("t-uid")
            want = [ref("fixed"), ref(inputs["u"])]
            resource["metadata"] = {"ownerReferences": [ref("fixed"), ref("=inputs.u")]}
        elif target_refs == "empty":
            resource["metadata"] = {"ownerReferences": []}
        elif target_refs == "computed":
            inputs["refs"] = want = [ref(sx.text("t-uid"))]
            resource["metadata"] = {"ownerReferences": "=inputs.refs"}
        elif target_refs == "parent":
            inputs["refs"] = want = [dict(parent)]
            resource["metadata"] = {"ownerReferences": "=inputs.refs"}
        elif target_refs == "null":
            resource["metadata"] = {"ownerReferences": None}
        elif target_refs == "computed-null":
            inputs["refs"] = None
            resource["metadata"] = {"ownerReferences": "=inputs.refs"}
        via = sx.choice("via", ("resource", "overlay")) if target_refs else "resource"
        extra = {}
        if via == "overlay":
            extra["overlays"] = [{"overlay": {"metadata": resource.pop("metadata")}}]
        spec = rf_spec(resource, kind=kind, namespace="=inputs.ns", update="patch", owned=owned, **extra)
        rig = Rig(sx, spec, inputs=inputs, owner=(owner_ns, parent))
        await rig.prepare()
        ns = inputs["ns"] if kind == "ns" else None
        live = sx.choice("live", ("absent", "none", "empty", "other", "ours", "other+ours", "ours+other", "other+other"))
        live_refs = []
        drifted = True
        if live != "absent":
            meta = {"name": "widget-1", "uid": "u0", "resourceVersion": "1"}
            if ns is not None:
                meta["namespace"] = ns
            others = iter((
                {"apiVersion": sx.text("live-api"), "kind": sx.text("live-kind"), "name": sx.text("live-name"), "uid": sx.text("live-uid"),
                 **({"controller": sx.flag("live-ctl")} if cfg.get("target") else {})},
                ref("second-uid", "p"),
            ))
            for part in live.split("+"):
                if part == "other":
                    live_refs.append(next(others))
                elif part == "ours":
                    live_refs.append(dict(parent))
            if live != "none":
                meta["ownerReferences"] = list(live_refs)
            doc = {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": meta, "spec": {"v": sx.text("live-v")}}
            rig.cluster.put(plural_of(kind), ns, "widget-1", doc)
        sx.note(kind=kind, owned=owned, live=live, target_refs=target_refs)
        should = owned is not False and kind == "ns" and strict_equal(owner_ns, ns)
        for n in range(3):
            before = [dict(r) for r in rig.cluster.objects[0].doc["metadata"].get("ownerReferences") or ()] if rig.cluster.objects else None
            result, calls = await rig.step()
            muts = [c for c in calls if c.mutating]
            info = lambda: f"kind={kind} owned={owned} should={should} owner_ns={deepcopy_plain(owner_ns)} parent={deepcopy_plain(parent)} live={deepcopy_plain(before)} target={deepcopy_plain(want)} via={via} -> {deepcopy_plain([(c.verb, c.data) for c in muts])} {result.outcome}"
            sx.observe([c.verb for c in muts], klass(result.outcome))
            if not muts:
                # nothing sent: allowed only if the parent's reference is there
                if should and before is not None:
                    sx.check(has(uids(before), parent["uid"]), "owner-ref-missing", info)
                break
            c = muts[0]
            check_body(sx, c.data, info)
            sent = c.data["metadata"].get("ownerReferences", MISSING)
            if c.verb == "POST":
                got = has(uids(sent) if sent is not MISSING else [], parent["uid"])
                if should:
                    sx.check(got, "create-owner-ref", info)
                    mine = [r for r in sent if strict_equal(r.get("uid"), parent["uid"])]
                    if not has(uids(want), parent["uid"]):
                        sx.check(len(mine) == 1, "create-owner-ref-once", info)
                        sx.check(strict_equal(mine[0], parent), "create-owner-ref-exact", info)
                    sx.reach("create-owned")
                elif not has(uids(want), parent["uid"]):
                    sx.check(not got, "create-foreign-owner-ref", info)
                    sx.reach("create-unowned")
            else:
                sx.check(c.verb == "PATCH", "verb", info)
                if sent is not MISSING:
                    for r in before or ():
                        sx.check(has(uids(sent), r.get("uid")), "patch-drops-owner", info)
                    sx.reach("patch-with-refs")
                if should and not has(uids(before), parent["uid"]):
                    sx.check(sent is not MISSING and has(uids(sent), parent["uid"]), "patch-owner-ref", info)
                    sx.reach("patch-adds-owner")
                if not should and not has(uids(want), parent["uid"]) and not has(uids(before), parent["uid"]):
                    sx.check(sent is MISSING or not has(uids(sent), parent["uid"]), "patch-foreign-owner-ref", info)
                    sx.reach("patch-unowned")
        else:
            sx.check(False, "keeps-patching", info)

    run(body())


AWKWARD = ("", " ", "\u00a0x", "a\u2028b", "\U0001f600", "\ud83d", "\"q\"", "back\\slash", "</script>", "\x00\x1f", "tab\tnl\n", "1e3", "null",
           "{\"k\": 1}", "%s", "x-koreo-compare-as-set", "\u00e9 vs e\u0301", "x" * 300)


def fields(sx, cfg):
    """A field under any name anywhere, holding any value: the annotation tells
    it, and what is sent has no directive."""

    async def body():
        fresh()
        place = cfg["place"]
        if cfg.get("values"):
            name = sx.choice("name", ("field", "status"))
            kind = sx.choice("value", ("int", "double", "true", "null", "map", "list", "nested", "directive", "text", *AWKWARD))
            if kind in ("int", "double", "true", "null", "map", "list", "text"):
                v = sx.leaf_of("v", {"double": "float"}.get(kind, kind))
            elif kind == "nested":
                v = [{"a": [None, {}, [], sx.text("v")], "": {"status": {"metadata": {"annotations": {LAST_APPLIED: "{}"}}}}}]
            elif kind == "directive":
                v = {"a": [{SET: ["x"], "b": [{MAP: {"x": ["y"]}, LAST: [], "c": sx.text("v")}]}], SET: "odd", LAST: None}
            else:
                v = kind
        else:
            name = sx.choice("name", tuple(w for w in words() if not typed_away(place, w)))
            v = sx.text("v")
        layer = sx.choice("layer", ("resource", "overlay", "create") if cfg.get("values") else ("resource",))
        if place in ("label", "note") and isinstance(v, (dict, list)):
            raise PathEnd()
        doc = PLACES[place](name, "=inputs.v")
        extra = {}
        if layer == "overlay":
            extra["overlays"] = [{"overlay": doc}]
            doc = {"spec": {"base": 1}}
        elif layer == "create":
            extra["create"] = {"overlay": doc}
            doc = {"spec": {"base": 1}}
        rig = Rig(sx, rf_spec(doc, update="patch", **extra), inputs={"v": v})
        await rig.prepare()
        for verb in ("POST", "PATCH"):
            if verb == "PATCH":
                if layer == "create":
                    break
                for o in rig.cluster.objects:
                    o.doc = {**o.doc, "metadata": {"name": "widget-1", "namespace": "team-a", "uid": "u", "resourceVersion": "3"}, "spec": {"kept": 1}}
                    o.doc = {k: x for k, x in o.doc.items() if k in ("apiVersion", "kind", "metadata", "spec")}
            result, calls = await rig.step()
            muts = [c for c in calls if c.mutating]
            info = lambda: f"{place} {name!r} {layer} v={deepcopy_plain(v)!r} -> {deepcopy_plain([tuple(c) for c in muts])} {result.outcome}"
            sx.observe([c.verb for c in muts], klass(result.outcome))
            for c in muts:
                check_body(sx, c.data, info)
                sx.reach(c.verb)

    run(body())


def identities(sx, cfg):
    """Owner references whose uids are related texts (one a part of the other,
    differing in case, ...): symbolic characters."""

    async def body():
        fresh()
        a, b = cfg["sizes"]
        parent = {**OWNER_REF, "uid": sx.chars("parent-uid", a)}
        other_uid = sx.chars("live-uid", b)
        how = sx.choice("live", ("other", "other+third", "absent"))
        same_rest = sx.flag("same-name")
        other = {**OWNER_REF, "uid": other_uid} if same_rest else ref(other_uid)
        live_refs = [other, ref("third", "t")] if how == "other+third" else [other] if how == "other" else []
        resource = {"spec": {"v": "=inputs.v"}}
        inputs = {"v": "new"}
        if cfg.get("target"):
            inputs["u"] = sx.chars("target-uid", b)
            resource["metadata"] = {"ownerReferences": [ref("=inputs.u")]}
        rig = Rig(sx, rf_spec(resource, update="patch"), inputs=inputs, owner=("team-a", parent))
        await rig.prepare()
        if how != "absent":
            rig.cluster.put("widgets", "team-a", "widget-1", {
                **{"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "spec": {"v": "new" if sx.flag("met") else "old"}},
                "metadata": {"name": "widget-1", "namespace": "team-a", "uid": "u0", "resourceVersion": "1", "ownerReferences": list(live_refs)}})
        result, calls = await rig.step()
        muts = [c for c in calls if c.mutating]
        info = lambda: f"parent={deepcopy_plain(parent)} live={deepcopy_plain(live_refs)} target={deepcopy_plain(inputs)} -> {deepcopy_plain([(c.verb, c.data) for c in muts])} {result.outcome}"
        sx.observe([c.verb for c in muts], klass(result.outcome))
        have = has(uids(live_refs), parent["uid"])
        if not muts:
            sx.check(have, "owner-ref-missing", info)
            sx.reach("quiet")
            return
        sent = muts[0].data["metadata"].get("ownerReferences", MISSING)
        if not have:
            sx.check(sent is not MISSING and has(uids(sent), parent["uid"]), "adds-owner-ref", info)
            sx.reach("adds")
        if sent is not MISSING:
            for r in live_refs:
                sx.check(has(uids(sent), r["uid"]), "patch-drops-owner", info)

    run(body())


MISSING = object()
LAYERS = ("inline", "template", "overlay", "overlayRef", "create")

HARNESSES = [
    Harness("clean", clean, quick=[dict(layer=l) for l in LAYERS],
            thorough=[dict(layer=l) for l in LAYERS] + [dict(layer=l) for l in ("inline+overlay", "overlay+create", "template+create", "inline+create", "overlayRef+overlay")],
            reach=("POST", "PATCH"),
            bounds="directives at 11 placements (top level to depth 5, lists, nested lists, computed values) through each layer; target annotations absent/other/stale last-applied"),
    Harness("fields", fields, quick=[dict(place=p) for p in PLACES] + [dict(place=p, values=True) for p in ("top", "spec", "note", "meta", "list")],
            thorough=[dict(place=p) for p in PLACES] + [dict(place=p, values=True) for p in PLACES],
            reach=("POST", "PATCH"),
            bounds="one field under any name among the text constants of koreo's resource_function code and usual Kubernetes names at 21 kinds of position; values of every JSON type and 18 awkward texts"),
    Harness("identities", identities, quick=[dict(sizes=s) for s in ((1, 1), (1, 2), (2, 1), (2, 2))] + [dict(sizes=(1, 2), target=True)],
            thorough=[dict(sizes=(a, b), target=t) for a in (1, 2, 3) for b in (1, 2, 3) for t in (False, True)],
            reach=("quiet", "adds"),
            bounds="owner uids of 1..2 (thorough 3) symbolic characters, so any relation between them (prefix, case, order)"),
    Harness("owners", owners, quick=[dict(), dict(target=True)], thorough=[dict(target=True)],
            reach=("create-owned", "create-unowned", "patch-with-refs", "patch-adds-owner", "patch-unowned"),
            bounds="object and parent namespaces and every uid symbolic; 0..2 live owner references, 0..2 references asked for by the definition"),
]
