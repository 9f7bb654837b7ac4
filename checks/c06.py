"""C06: managed object identity is pinned to apiConfig."""
from sx.main import Harness

from checks.rflib import *

# what a layer tries to put into the object, by field
HOSTILE = ("apiVersion", "kind", "metadata.name", "metadata.namespace", "metadata", "two", "none")


def hostile(sx, tag, inputs):
    """A definition fragment trying to redirect the object; values via inputs
    (symbolic) or literal."""
    what = sx.choice(f"{tag}-what", HOSTILE)

    def val(n, kinds=("text", "empty", "null", "int", "map", "list", "same")):
        kind = sx.choice(f"{tag}-{n}-kind", kinds)
        if kind == "literal":
            return "hijacked"
        if kind == "same":
            kind = "text"
        v = sx.leaf_of(f"{tag}-{n}", kind)
        key = f"{tag}{n}".replace("-", "_")
        inputs[key] = v
        return f"=inputs.{key}"

    doc = {"spec": {f"from{tag}": "yes"}}
    if what == "apiVersion":
        doc["apiVersion"] = val("api", ("text", "null", "map", "literal"))
    elif what == "kind":
        doc["kind"] = val("kind", ("text", "null", "map", "literal"))
    elif what == "metadata.name":
        doc["metadata"] = {"name": val("name", ("text", "null", "map", "empty", "literal")), "labels": {tag: "x"}}
    elif what == "metadata.namespace":
        doc["metadata"] = {"namespace": val("ns", ("text", "null", "map", "empty", "literal"))}
    elif what == "metadata":
        how = sx.choice(f"{tag}-meta", ("text", "null", "map", "list", "mapname", "literal-empty"))
        if how == "mapname":
            inputs[f"{tag}m"] = {"name": sx.text(f"{tag}-mname"), "namespace": sx.text(f"{tag}-mns"), "generateName": "g-"}
            doc["metadata"] = f"=inputs.{tag}m"
        elif how == "literal-empty":
            doc["metadata"] = {}
        else:
            inputs[f"{tag}m"] = sx.leaf_of(f"{tag}-m", how)
            doc["metadata"] = f"=inputs.{tag}m"
    elif what == "two":
        doc["kind"] = val("kind2", ("text", "literal"))
        doc["metadata"] = {"name": val("name2", ("text",)), "namespace": val("ns2", ("text",)), "uid": "stolen"}
    return doc


LAYERS = ("inline", "template", "overlay", "overlayRef", "create", "overlay+create", "overlayRef+overlay", "template+create")


def pinned(sx, cfg):
    async def body():
        fresh()
        kind = cfg.get("kind", "ns")
        k = KINDS[kind]
        layers = cfg["layer"].split("+")
        inputs = {}
        extra = {}
        name = sx.text("name", nonempty=True)
        ns = sx.text("ns", nonempty=True) if k["namespaced"] else None
        inputs["name"] = name
        if ns is not None:
            inputs["ns"] = ns
        resource = {"spec": {"a": "1"}}
        if "inline" in layers:
            resource = hostile(sx, "inline", inputs)
        if "template" in layers:
            inputs["which"] = "tpl"
            doc = hostile(sx, "tpl", inputs)
            # a template is static: literal values only
            doc = literalise(sx, doc)
            doc.setdefault("apiVersion", "other.dev/v1")
            doc.setdefault("kind", "Other")
            t = await offer(ResourceTemplate, "tpl", {"template": doc})
            if klass(t) != "ok":
                raise PathEnd()
            extra["resourceTemplateRef"] = {"name": "=inputs.which"}
            resource = None
        overlays = []
        if "overlayRef" in layers:
            doc = hostile(sx, "vf", inputs)
            f = await offer(ValueFunction, "vf", {"return": doc})
            if klass(f) != "ok":
                raise PathEnd()
            needed = {key: f"=inputs.{key}" for key in inputs if key.startswith("vf")}
            overlays.append({"overlayRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": needed} if needed
                            else {"overlayRef": {"kind": "ValueFunction", "name": "vf"}})
        if "overlay" in layers:
            overlays.append({"overlay": hostile(sx, "ov", inputs)})
        if overlays:
            extra["overlays"] = overlays
        create = {"overlay": hostile(sx, "cr", inputs)} if "create" in layers else None
        policy = sx.choice("policy", ("patch", "recreate"))
        owned = sx.flag("owned")
        spec = rf_spec(
            resource, kind=kind, name="=inputs.name", namespace="=inputs.ns", update=policy, create=create,
            owned=None if owned else False, **extra,
        )
        rig = Rig(sx, spec, inputs=inputs)
        await rig.prepare()
        sx.note(layer=cfg["layer"], kind=kind, policy=policy, spec=spec, inputs=inputs)
        plural = plural_of(kind)
        start = sx.choice("start", ("absent", "drifted", "decoys"))
        if start == "drifted":
            live = {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": {"name": name, "uid": "u0", "resourceVersion": "1"}}
            if ns is not None:
                live["metadata"]["namespace"] = ns
            rig.cluster.put(plural, ns, name, live)
        elif start == "decoys":
            if kind != "ns" or policy == "recreate":
                raise PathEnd()
            for pl, n2, nm in ((plural, "other-ns", "hijacked"), ("others", "team-a", "hijacked")):
                rig.cluster.put(pl, n2, nm, {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": {"name": nm, "namespace": n2}})
        want = {"apiVersion": k["apiVersion"], "kind": k["kind"]}
        for _ in range(2):
            result, calls = await rig.step()
            muts = [c for c in calls if c.mutating]
            sx.observe([c.verb for c in muts], klass(result.outcome))
            info = lambda: f"kind={kind} policy={policy} spec={spec} inputs={deepcopy_plain(inputs)} -> {deepcopy_plain([tuple(c) for c in muts])} {result.outcome}"
            for c in muts:
                sx.check(c.version == k["apiVersion"] and c.plural == plural, "addressed-kind", info)
                sx.check(strict_equal(c.namespace, ns), "addressed-namespace", info)
                sx.check(strict_equal(c.name, name), "addressed-name", info)
                sx.reach(c.verb)
                if c.verb == "DELETE":
                    continue
                meta = c.data.get("metadata")
                sx.check(strict_equal(c.data.get("apiVersion"), k["apiVersion"]), "body-apiVersion", info)
                sx.check(strict_equal(c.data.get("kind"), k["kind"]), "body-kind", info)
                sx.check(isinstance(meta, dict) and strict_equal(meta.get("name"), name), "body-name", info)
                if ns is not None:
                    sx.check(strict_equal(meta.get("namespace"), ns), "body-namespace", info)
            if klass(result.outcome) == "permfail":
                sx.reach("refused")

    run(body())


def literalise(sx, doc):
    """ResourceTemplates are static data: replace expressions by literals."""
    if isinstance(doc, dict):
        return {k: literalise(sx, v) for k, v in doc.items()}
    if isinstance(doc, str) and doc.startswith("="):
        return "hijacked"
    return doc


def kinds(sx, cfg):
    """Functions for look-alike kinds in one process: each keeps its own."""

    async def body():
        fresh()
        APIS = (
            dict(apiVersion="v1", kind="Service", plural="services"),
            dict(apiVersion="serving.knative.dev/v1", kind="Service", plural="services"),
            dict(apiVersion="test.koreo.dev/v1", kind="Gizmo", plural="gizmos"),
            dict(apiVersion="test.koreo.dev/v2", kind="Gizmo", plural="gizmos"),
            dict(apiVersion="other.koreo.dev/v1", kind="Gizmo", plural="gizmos"),
            dict(apiVersion="v1", kind="Gizmo", plural="gizmos"),
            dict(apiVersion="test.koreo.dev/v1", kind="Gizmo", plural="gizmos", namespaced=False),
            dict(apiVersion="v1", kind="ConfigMap", plural="configmaps"),
            dict(apiVersion="apps/v1", kind="Deployment", plural="deployments"),
            dict(apiVersion="test.koreo.dev/v1", kind="Policy"),
        )
        if cfg.get("builtin"):
            APIS = builtin()
        seq = [sx.choice(f"api{i}", APIS) for i in range(cfg["n"])]
        prior = sx.choice("fixture", (None, "namespaced", "bare") if not cfg.get("builtin") else (None,))
        name, ns = sx.text("name"), sx.text("ns")
        if prior:
            # a FunctionTest over the same kind ran in this process
            a0 = seq[0]
            meta = {"name": "fix"} if prior == "bare" else {"name": "fix", "namespace": "ns"}
            spec = {
                "functionRef": {"kind": "ResourceFunction", "name": "rf-t"},
                "currentResource": {"apiVersion": a0["apiVersion"], "kind": a0["kind"], "metadata": meta},
                "testCases": [{"expectReturn": {}}],
            }
            await offer(ResourceFunction, "rf-t", _kind_spec(a0))
            ft = await offer(FunctionTest, "ft", spec)
            if klass(ft) == "ok":
                await aguarded(sx, "crash", run_function_test("t", ft))
        fns = []
        for i, a in enumerate(seq):
            f = await offer(ResourceFunction, f"rf{i}", _kind_spec(a))
            if klass(f) != "ok":
                raise AssertionError(f)
            fns.append(f)
        sx.note(seq=seq, prior=prior)
        order = sx.choice("order", (1, -1))
        for i in range(len(seq))[::order]:
            a = seq[i]
            want_ns = None if a.get("namespaced") is False else ns
            cluster = Cluster()
            cluster.kinds["Policy.test.koreo.dev/v1"] = ("policy", "policies", True)
            for verb in ("POST", "PATCH"):
                start = len(cluster.log)
                r = await aguarded(sx, "crash", reconcile_resource_function(
                    api=cluster, location="l", function=fns[i], owner=("x", OWNER_REF),
                    inputs=cel({"name": name, "ns": ns, "v": verb}),
                ))
                muts = [c for c in cluster.log[start:] if c.mutating]
                info = lambda: f"seq={seq} prior={prior} i={i} -> {deepcopy_plain([tuple(c) for c in muts])} {r.outcome}"
                sx.observe([c.verb for c in muts])
                sx.check([c.verb for c in muts] == [verb], "manages", info)
                c = muts[0]
                sx.check(c.version == a["apiVersion"] and c.plural == a.get("plural", "policies"), "addressed-kind", info)
                sx.check(strict_equal(c.namespace, want_ns), "addressed-namespace", info)
                sx.check(strict_equal(c.name, name), "addressed-name", info)
                sx.check(c.data["apiVersion"] == a["apiVersion"] and c.data["kind"] == a["kind"], "body-kind", info)
                sx.check(strict_equal(c.data["metadata"]["name"], name), "body-name", info)
                if want_ns is not None:
                    sx.check(strict_equal(c.data["metadata"].get("namespace"), ns), "body-namespace", info)
                sx.reach(verb)

    run(body())


def builtin():
    """Every kind the client library knows, as it knows it and as a definition
    may name another one that only looks like it."""
    import kr8s.asyncio.objects as known

    out = []
    for kind, c in sorted(vars(known).items()):
        if not (isinstance(c, type) and isinstance(getattr(c, "version", None), str) and isinstance(getattr(c, "plural", None), str)):
            continue
        v = c.version.rsplit("/", 1)[-1]
        group = c.version.rsplit("/", 1)[0] if "/" in c.version else None
        versions = [c.version, f"other.dev/{v}", f"{group}/v9" if group else "v9"] + (["v1"] if group else [])
        for version in dict.fromkeys(versions):
            out.append(dict(apiVersion=version, kind=kind, plural=c.plural, namespaced=bool(c.namespaced)))
        out.append(dict(apiVersion=c.version, kind=kind, plural=c.plural, namespaced=not c.namespaced))
        out.append(dict(apiVersion=c.version, kind=kind, plural=f"{c.plural}x", namespaced=bool(c.namespaced)))
    return tuple(out)


def names(sx, cfg):
    """The name and namespace are texts of symbolic characters: whatever they
    are, every call and body carries exactly them."""

    async def body():
        fresh()
        n, m = cfg["sizes"]
        name = sx.chars("name", n) if n < 50 else "x" * (n - 2) + "-Q"
        ns = sx.chars("ns", m) if m < 50 else "y" * (m - 2) + "-Q"
        # (a name that is an expression's result, or one from a template)
        how = sx.choice("how", ("inputs", "concat"))
        inputs = {"name": name, "ns": ns}
        exprs = {"inputs": ("=inputs.name", "=inputs.ns"), "concat": ("='p' + inputs.name", "=inputs.ns + ' '")}[how]
        want = {"inputs": (name, ns), "concat": ("p" + name, ns + " ")}[how]
        policy = sx.choice("policy", ("patch", "recreate"))
        spec = rf_spec({"spec": {"v": "=inputs.v"}}, name=exprs[0], namespace=exprs[1], update=policy)
        inputs["v"] = "v"
        rig = Rig(sx, spec, inputs=inputs)
        await rig.prepare()
        start = sx.choice("start", ("absent", "drifted"))
        if start == "drifted":
            rig.cluster.put("widgets", want[1], want[0], {
                "apiVersion": "test.koreo.dev/v1", "kind": "Widget",
                "metadata": {"name": want[0], "namespace": want[1], "uid": "u0", "resourceVersion": "1"}})
        result, calls = await rig.step()
        info = lambda: f"{policy} {start} want={deepcopy_plain(want)} -> {deepcopy_plain([tuple(c) for c in calls])} {result.outcome}"
        muts = [c for c in calls if c.mutating]
        if not m and how == "inputs":
            sx.check(not muts and klass(result.outcome) == "permfail", "namespace-required", info)
            return
        if not n and how == "inputs":
            if not muts:
                return  # (an object without a name can be refused)
        sx.check([c.verb for c in muts] == [{"absent": "POST", "drifted": {"patch": "PATCH", "recreate": "DELETE"}[policy]}[start]], "acts", info)
        for c in calls:
            if c.verb != "GET" or c.name is not None:
                sx.check(strict_equal(c.name, want[0]), "addressed-name", info)
            sx.check(strict_equal(c.namespace, want[1]), "addressed-namespace", info)
            if c.verb in ("POST", "PATCH"):
                sx.check(strict_equal(c.data["metadata"]["name"], want[0]), "body-name", info)
                sx.check(strict_equal(c.data["metadata"]["namespace"], want[1]), "body-namespace", info)
            sx.reach(c.verb)

    run(body())


NAME_SIZES = ((1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (0, 1), (1, 0), (64, 1), (254, 1), (1, 64), (300, 64))


def _kind_spec(a):
    api = dict(a, name="=inputs.name", namespace="=inputs.ns")
    return {"apiConfig": api, "resource": {"spec": {"v": "=inputs.v"}}}


HARNESSES = [
    Harness("pinned", pinned,
            quick=[dict(layer=l) for l in LAYERS[:5]] + [dict(layer=l, kind="cluster") for l in ("inline", "overlay", "create")] + [dict(layer="inline", kind="lookup")],
            thorough=[dict(layer=l, kind=k) for l in LAYERS for k in KINDS],
            reach=("POST", "PATCH", "DELETE"),
            bounds="redirect attempts in every layer and pairs of layers; names, namespaces and hostile values symbolic texts; 2 passes from absent/drifted/decoys"),
    Harness("kinds", kinds, quick=[dict(n=1), dict(n=2), dict(n=1, builtin=True)], thorough=[dict(n=2), dict(n=3), dict(n=2, builtin=True)], reach=("POST", "PATCH"),
            bounds="up to 2 (thorough 3) functions in one process out of 9 look-alike apiConfigs, any order, optionally after a FunctionTest of the same kind; also every kind of the client library as it is, in another group, version or scope, and with another plural"),
    Harness("names", names, quick=[dict(sizes=s) for s in NAME_SIZES], thorough=[dict(sizes=(a, b)) for a in (0, 1, 2, 3, 4, 64, 300) for b in (0, 1, 2, 3, 4, 64, 300)],
            reach=("POST", "PATCH", "DELETE"),
            bounds="name and namespace texts of 0..3 (thorough 4) symbolic characters, or long fixed ones up to 300; as an input or inside a concatenation"),
]
