"""C07: management modes bound the API calls a ResourceFunction may make."""
from sx.main import Harness

from checks.rflib import *

PRE_KINDS = ("skip", "depSkip", "retry", "permFail", "ok")


def precondition(sx, i, inputs):
    """One assertion -> (spec, reference verdict: None passes / class / 'stop')."""
    kind = sx.choice(f"pre{i}-kind", PRE_KINDS)
    how = sx.choice(f"pre{i}-how", ("bool", "text", "error", "badmessage"))
    spec = {"assert": f"=inputs.p{i}"}
    body = {} if kind == "ok" else {"message": f"msg{i}"}
    if kind == "retry":
        body["delay"] = 7
    if how == "bool":
        v = sx.flag(f"pre{i}")
        inputs[f"p{i}"] = v
        verdict = None if v else ("stop" if kind == "ok" else kind)
    elif how == "text":
        inputs[f"p{i}"] = sx.text(f"pre{i}-text")
        verdict = "permFail"
    elif how == "error":
        spec["assert"] = f"=inputs.missing{i} == 1"
        verdict = "permFail"
    else:
        if kind == "ok":
            raise PathEnd()
        v = sx.flag(f"pre{i}")
        inputs[f"p{i}"] = v
        body["message"] = f"=inputs.nomsg{i}"
        # an unevaluable message fails safe; with a passing assertion before it
        # the message is never needed
        verdict = "permFail" if not v else "either"
    spec[kind] = body
    return spec, verdict


def modes(sx, cfg):
    async def body():
        fresh()
        lite = cfg.get("lite")
        readonly = sx.choice("readonly", (None, True) if lite else (None, True, False))
        delete = sx.choice("deleteIfExists", (None, True) if lite else (None, True, False))
        update = sx.choice("update", ("default", "recreate") if lite else ("default", "patch", "recreate", "never"))
        create = sx.choice("create", (None, {"enabled": False}) if lite else (
            None, {"enabled": True}, {"enabled": False}, {"delay": 3}, {"enabled": False, "delay": 3}, {"enabled": False, "overlay": {"spec": {"once": "x"}}},
            {"overlay": {"spec": {"once": "x"}}}))
        owned = sx.choice("owned", (None,) if lite else (None, False))
        kind = sx.choice("kind", cfg.get("kinds", ("ns",)))
        k = KINDS[kind]
        inputs = {"want": sx.text("want"), "go": True}
        pres, verdicts = [], []
        for i in range(cfg.get("pre", 0)):
            s, v = precondition(sx, i, inputs)
            pres.append(s)
            verdicts.append(v)
        extra = {"preconditions": pres} if pres else {}
        resource = {"spec": {"v": "=inputs.want"}}
        if cfg.get("layers"):
            how = sx.choice("layer", ("template", "overlay", "error-resource", "error-overlay", "error-locals", "error-name"))
            if how == "template":
                await offer(ResourceTemplate, "tpl", {"template": {"apiVersion": k["apiVersion"], "kind": k["kind"], "spec": {"v": "lit"}}})
                resource, extra["resourceTemplateRef"] = None, {"name": "tpl"}
            elif how == "overlay":
                extra["overlays"] = [{"overlay": {"spec": {"w": "=inputs.want"}}, "skipIf": "=!inputs.go"}]
            elif how == "error-resource":
                resource = {"spec": {"v": "=inputs.nope"}}
            elif how == "error-overlay":
                extra["overlays"] = [{"overlay": {"spec": {"w": "=inputs.nope"}}}]
            elif how == "error-locals":
                extra["locals"] = {"x": "=inputs.nope"}
        spec = rf_spec(resource, kind=kind, update=update, readonly=readonly, delete=delete, create=create, owned=owned, **extra)
        if cfg.get("layers") and how == "error-name":
            spec["apiConfig"]["name"] = "=inputs.nope"
        cluster = Cluster(absent=sx.choice("absent", ("empty", "notfound", "404") if cfg.get("absent") else ("empty",)))
        rig = Rig(sx, spec, inputs=inputs, cluster=cluster)
        await rig.prepare()
        plural, ns = plural_of(kind), "team-a" if k["namespaced"] else None

        def live(tag):
            how = sx.choice(f"{tag}", ("absent", "unowned") if lite else ("absent", "exists", "unowned", "bare"))
            for o in list(cluster.objects):
                cluster.objects.remove(o)
            if how == "absent":
                return
            meta = {"name": "widget-1", "uid": "u0", "resourceVersion": "1"}
            if ns:
                meta["namespace"] = ns
            if how == "exists":
                meta["ownerReferences"] = [dict(OWNER_REF)]
            doc = {"apiVersion": k["apiVersion"], "kind": k["kind"], "metadata": meta}
            if how != "bare":
                doc["spec"] = {"v": sx.text(f"{tag}-v")}
            cluster.put(plural, ns, "widget-1", doc)

        live("live0")
        sx.note(spec=spec, live=[o.doc for o in cluster.objects], inputs=inputs)
        # reference: which verbs may this function use at all
        allowed = {"POST", "PATCH", "DELETE"}
        if readonly:
            allowed -= {"POST", "PATCH", "DELETE"}
        if create is not None and create.get("enabled") is False:
            allowed -= {"POST"}
        allowed -= {"never": {"PATCH", "DELETE"}, "recreate": {"PATCH"}}.get(update, {"DELETE"})
        if delete:
            allowed = {"DELETE"}
        # preconditions: do they pass?  (which outcome they give is C13's matter)
        first = next((v for v in verdicts if v not in (None, "either")), None)
        blocked = first not in (None, "stop")
        vague = "either" in verdicts or (first == "stop" and "permFail" in verdicts)
        for n in range(cfg.get("passes", 2)):
            if n and cfg.get("churn"):
                if sx.flag(f"churn{n}"):
                    live(f"live{n}")
            absent = not cluster.objects
            result, calls = await rig.step()
            verbs = [c.verb for c in calls if c.mutating]
            info = lambda: f"spec={spec} inputs={deepcopy_plain(inputs)} absent={absent} pass={n} -> {[c.verb for c in calls]} {result.outcome}"
            sx.observe(verbs, klass(result.outcome))
            sx.check(set(verbs) <= allowed, "verb-not-allowed", info)
            if blocked:
                sx.check(not calls, "no-call-when-preconditions-fail", info)
                sx.check(klass(result.outcome) != "ok", "preconditions-fail", info)
                sx.reach("blocked")
                return
            if vague and klass(result.outcome) == "permfail" and not calls:
                return
            if absent and not delete and "POST" not in allowed and not (cfg.get("layers") and how in ("error-locals", "error-name")):
                sx.check(not verbs and klass(result.outcome) == "retry", "waits-when-absent", info)
                sx.reach("waits")
            for v in verbs:
                sx.reach(v)
            sx.check(len(verbs) <= 1, "one-mutation", info)

    run(body())


HARNESSES = [
    Harness("modes", modes, quick=[dict(passes=3)], thorough=[dict(passes=3, churn=True, absent=True, kinds=("ns", "lookup", "cluster"))],
            reach=("POST", "PATCH", "DELETE", "waits"),
            bounds="every combination of readonly/deleteIfExists/update/create/owned; live object absent/owned/unowned/bare with symbolic content; 3 passes"),
    Harness("gated", modes, quick=[dict(passes=1, pre=1), dict(passes=1, pre=2, lite=True)], thorough=[dict(passes=2, pre=2, kinds=("ns", "lookup"))],
            reach=("blocked", "POST"),
            bounds="0..2 preconditions of every outcome kind, boolean (symbolic) / non-boolean / unevaluable / unevaluable message"),
    Harness("failing", modes, quick=[dict(passes=2, layers=True, absent=True)], thorough=[dict(passes=3, layers=True, absent=True, churn=True)],
            reach=("waits", "DELETE"), bounds="template/overlay/locals/name failing to evaluate in every mode; absence as empty list, NotFound or 404"),
]
