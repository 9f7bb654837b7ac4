"""C02: a workflow's result is independent of step completion order."""
from sx.main import Harness

from checks.wflib import *

STATES = ("ok", "absent", "drift", "readonly-missing", "fails", "skips")


def object_state(sx, name, tag, cluster_objs, trigger, states):
    """The condition the managed object is in -> mode for the Logic."""
    st = sx.choice(f"{name}-object", states)
    mode = 0
    if st == "ok":
        cluster_objs[tag] = widget_doc(tag)
    elif st == "drift":
        d = widget_doc(tag)
        d["spec"]["tag"] = "other"
        cluster_objs[tag] = d
    elif st == "fails":
        cluster_objs[tag] = widget_doc(tag)
        mode = 5  # the return fails, after the API was asked
    elif st == "skips":
        mode = 1
    return mode


def shape(sx, cfg):
    """-> (steps, trigger, objects, expectations(res))"""
    name = cfg["shape"]
    states = cfg.get("states", ("ok", "absent", "drift"))
    objs, trigger = {}, {"t": "t"}
    checks = []
    cond = lambda l: {"type": l.capitalize(), "name": l}

    def rf_step(label, tag, data="=parent.t", state=None, states=states, **kw):
        mode = object_state(sx, label, tag, objs, trigger, states)
        return {"label": label, "ref": RFREF, "inputs": {"mode": mode, "tag": tag, "data": data},
                "condition": cond(label), "state": state or {"same": f"={'value.tag'}", label: "=value"}, **kw}

    def each_step(label, n, prefix, states=states, **kw):
        items = []
        for k in range(n):
            tag = f"{prefix}-{k}"
            items.append({"tag": tag, "mode": object_state(sx, f"{label}{k}", tag, objs, trigger, states)})
        trigger[f"items_{label}"] = items
        checks.append((label, items))
        return {"label": label, "ref": {"kind": "ResourceFunction", "name": "each-rf"}, "inputs": {"data": "=parent.t", "list": ["=parent.t"]},
                "forEach": {"itemIn": f"=parent.items_{label}", "inputKey": "item"}, "condition": cond(label),
                "state": {"same": "='each'", label: "=value"}, **kw}

    if name == "parallel":
        steps = [rf_step(f"step{k}", f"obj-{k}") for k in range(cfg["n"])]
    elif name == "each":
        steps = [each_step("loop", cfg["n"], "obj")]
        if cfg.get("beside"):
            steps.append(rf_step("beside", "obj-x", states=("ok",)))
    elif name == "two-each":
        steps = [each_step("loop", 2, "obj", states=("ok", "absent")), each_step("other", 2, "oth", states=("ok",))]
    elif name == "diamond":
        steps = [rf_step("top", "obj-t", states=("ok",)), rf_step("left", "obj-l", "=steps.top.tag"), rf_step("right", "obj-r", "=steps.top.tag"),
                 rf_step("join", "obj-j", "=[steps.left.tag, steps.right.tag]")]
    elif name == "sub":
        inner = [rf_step("in1", "obj-1"), rf_step("in2", "obj-2")]
        for s in inner:
            s["state"] = {"same": "=value.tag", s["label"]: "=value"}
        sub = ("sub", {"steps": inner})
        steps = [{"label": "nest", "ref": {"kind": "Workflow", "name": "sub"}, "inputs": {"t": "=parent.t"}, "condition": cond("nest"), "state": {"same": "=value.same", "nest": "=value"}},
                 rf_step("beside", "obj-x", states=("ok", "absent"))]
        return steps, trigger, objs, checks, [sub]
    elif name == "switch-each":
        s = each_step("loop", 2, "obj", states=("ok", "absent"))
        del s["ref"]
        s["refSwitch"] = {"switchOn": "=inputs.item.which", "cases": [
            {"case": "one", "kind": "ResourceFunction", "name": "each-rf"}, {"case": "two", "kind": "ResourceFunction", "name": "each-two", "default": True}]}
        for i, it in enumerate(trigger["items_loop"]):
            it["which"] = ("one", "two")[i]
        steps = [s, rf_step("after", "obj-a", "=steps.loop.map(x, x.tag)", states=("ok",))]
    elif name == "same-object":
        # two steps manage the very same object, listed one after the other by dependency
        steps = [rf_step("top", "obj-t", states=("ok", "drift")), rf_step("next", "obj-n", "=steps.top.tag"), rf_step("free", "obj-f")]
    return steps, trigger, objs, checks, []


def run_once(sx, spec, trigger, objs, latency):
    async def once():
        cluster = Cluster(latency=latency)
        for tag, doc in objs.items():
            cluster.put("widgets", OWNER_NS, tag, doc)
        w = await offer_ok(Workflow, "wf", spec)
        if klass(w.steps_ready) != "ok":
            raise AssertionError(f"{spec}: {w.steps_ready}")
        res = await aguarded(sx, "crash", reconcile_workflow(
            api=cluster, workflow_key="wf", owner=(OWNER_NS, OWNER_REF), trigger=cel(trigger), workflow=w))
        return res, cluster

    return once()


def whole(res, cluster):
    """Everything a pass reports and leaves behind."""
    return {
        "class": klass(res.result),
        "result": str(res.result) if klass(res.result) != "ok" else plain(res.result),
        "conditions": [dict(c) for c in res.conditions],
        "state": plain(res.state),
        "state-order": [str(k) for k in res.state],
        "state-errors": dict(res.state_errors),
        "ids": plain(res.resource_ids),
    }


def bare(doc):
    d = copy.deepcopy(doc)
    d.get("metadata", {}).pop("uid", None)
    return d


def schedules(sx, cfg):
    async def body():
        fresh()
        await offer_logics()
        each = rewrite(rf_logic(), {"inputs.mode": "inputs.item.mode", "inputs.tag": "inputs.item.tag"})
        each["return"] = {"item": "=inputs.item", "tag": "=resource.metadata.name", "data": "=inputs.data"}
        await offer_ok(ResourceFunction, "each-rf", each)
        await offer_ok(ResourceFunction, "each-two", dict(each, **{"return": {"item": "=inputs.item", "tag": "=resource.metadata.name", "two": True}}))
        steps, trigger, objs, checks, subs = shape(sx, cfg)
        for n, s in subs:
            w = await offer_ok(Workflow, n, s)
        spec = {"steps": steps}
        sx.note(spec=spec, trigger=trigger, objects=objs)
        base_res, base_cluster = await run_once(sx, spec, trigger, objs, None)
        base = whole(base_res, base_cluster)
        seen = {}

        def latency(call):
            key = f"{call.verb}-{call.name}"
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1:
                key += f"-{seen[key]}"
            return sx.ticks(f"d-{key}", 0, 1)

        res, cluster = await run_once(sx, spec, trigger, objs, latency)
        got = whole(res, cluster)
        for part in base:
            sx.check(strict_equal(base[part], got[part]), f"schedule-changes-{part}",
                     lambda: f"steps={steps} trigger={trigger} calls={[(c.verb, c.name) for c in cluster.log]} undisturbed={base[part]} got={got[part]}")
        a = sorted(((p, n, m, bare(d)) for p, n, m, d in base_cluster.contents()), key=lambda x: x[2])
        b = sorted(((p, n, m, bare(d)) for p, n, m, d in cluster.contents()), key=lambda x: x[2])
        sx.check(strict_equal(a, b), "schedule-changes-cluster", lambda: f"{a} vs {b}")
        sx.check(sorted((c.verb, str(c.name)) for c in base_cluster.log) == sorted((c.verb, str(c.name)) for c in cluster.log), "schedule-changes-calls",
                 lambda: f"{[(c.verb, c.name) for c in base_cluster.log]} vs {[(c.verb, c.name) for c in cluster.log]}")
        # forEach: in source order, every invocation with exactly its own item
        for label, items in checks:
            v = got["state"].get(label)
            reason = [c["reason"] for c in got["conditions"] if c["type"] == label.capitalize()]
            if v is not None:
                sx.check(len(v) == len(items), "each-length", lambda: f"{v}")
                for x, it in zip(v, items):
                    if isinstance(x, dict):
                        sx.check(strict_equal(x["item"], it) and x["tag"] == it["tag"], "each-order", lambda: f"{items} -> {v}")
                sx.reach("each-ok")
            ids = got["ids"]["resources"].get(label)
            for x, it in zip(ids or (), items):
                sx.check(x is None or x["name"] == it["tag"], "each-ids", lambda: f"{items} -> {ids}")
        # state: listed order, the later step wins
        order = [c["type"].lower() for c in got["conditions"][:-1]]
        sx.check(order == [s["label"] for s in steps], "condition-order", lambda: f"{order}")
        last = None
        for s in steps:
            if s["label"] in got["state"]:
                last = s["label"]
        if last is not None:
            want = "each" if any(last == l for l, _ in checks) else got["state"][last]["same" if last == "nest" else "tag"]
            sx.check(strict_equal(got["state"]["same"], want), "state-order", lambda: f"{got['state']} expected {want} of {last}")
        sx.observe(got["class"], [(c.verb, str(c.name)) for c in cluster.log])
        sx.reach(got["class"])

    run(body())


def rewrite(v, names):
    if isinstance(v, dict):
        return {k: rewrite(x, names) for k, x in v.items()}
    if isinstance(v, list):
        return [rewrite(x, names) for x in v]
    if isinstance(v, str):
        for a, b in names.items():
            v = v.replace(a, b)
    return v


HARNESSES = [
    Harness("schedules", schedules,
            quick=[dict(shape="parallel", n=2, states=STATES), dict(shape="parallel", n=3, states=("ok", "absent")),
                   dict(shape="each", n=2, states=STATES), dict(shape="each", n=3, states=("ok", "fails")), dict(shape="each", n=2, states=("ok", "skips"), beside=True),
                   dict(shape="two-each"), dict(shape="diamond", states=("ok", "absent")), dict(shape="sub"), dict(shape="switch-each"), dict(shape="same-object")],
            thorough=[dict(shape="parallel", n=3, states=STATES), dict(shape="parallel", n=4, states=("ok",)),
                      dict(shape="each", n=3, states=STATES), dict(shape="each", n=4, states=("ok",)), dict(shape="each", n=3, states=("ok", "absent"), beside=True),
                      dict(shape="two-each"), dict(shape="diamond"), dict(shape="sub", states=STATES), dict(shape="switch-each"), dict(shape="same-object", states=STATES)],
            reach=("ok", "retry", "permfail", "each-ok"),
            bounds="2..3 (thorough 4) concurrent steps or iterations, a diamond, a sub-workflow, two forEach steps, refSwitch in forEach; "
                   "each object in sync / absent / drifted / failing; every API call with its own symbolic latency of 0..1 s"),
]
