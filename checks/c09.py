"""C09: workflow reconcile contains faults, stays truthful, and recovers."""
import asyncio

import httpx
import kr8s

from sx.main import Harness

from checks.wflib import *
from checks.c02 import bare, rewrite, whole

LIMIT = 10  # the step timeout
KINDS_OF_FAULT = ("raise-before", "raise-after", "500", "404", "409", "hang", "hang-after", "transport", "api-timeout", "500-after")


def step(label, tag, ref=RFREF, data="=parent.t", **kw):
    return {"label": label, "ref": ref, "inputs": {"mode": 0, "tag": tag, "data": data},
            "condition": {"type": label.capitalize(), "name": label}, "state": {label: "=value"}, **kw}


async def logics():
    await offer_logics("vf", "rf", "one", "two", "other")
    await offer_ok(ResourceFunction, "recreate", rf_logic(update="recreate"))
    await offer_ok(ResourceFunction, "reader", rf_logic(readonly=True))
    gone = rf_spec(None, name="=inputs.tag", delete=True, resource={"spec": {}}, ret={"gone": True})
    await offer_ok(ResourceFunction, "remover", gone)
    look = rf_spec({"spec": {"tag": "=inputs.tag"}}, kind="lookup", name="=inputs.tag", ret={"tag": "=resource.metadata.name"})
    await offer_ok(ResourceFunction, "looker", look)
    each = rewrite(rf_logic(), {"inputs.mode": "inputs.item.mode", "inputs.tag": "inputs.item.tag"})
    each["return"] = {"tag": "=resource.metadata.name"}
    await offer_ok(ResourceFunction, "each-rf", each)


def rf_spec(resource_, *a, **k):
    from checks.rflib import rf_spec as f

    resource_ = k.pop("resource", resource_)
    return f(resource_, *a, **k)


def ref(name):
    return {"kind": "ResourceFunction", "name": name}


def shape(sx, cfg):
    """-> steps, trigger, needs: label -> labels it needs, owner of each tag."""
    name = cfg["shape"]
    trigger = {"t": "t"}
    subs = []
    if name == "single":
        steps = [step("alpha", "obj-a", ref(cfg.get("logic", "rf")))]
        needs = {}
        tags = {"obj-a": "alpha"}
    elif name == "chain":
        steps = [step("alpha", "obj-a"), step("beta", "obj-b", data="=steps.alpha.tag"), step("gamma", "obj-c", data="=steps.beta.tag")]
        needs = {"beta": {"alpha"}, "gamma": {"alpha", "beta"}}
        tags = {"obj-a": "alpha", "obj-b": "beta", "obj-c": "gamma"}
    elif name == "fork":
        steps = [step("alpha", "obj-a"), step("beta", "obj-b"), step("gamma", "obj-c", data="=steps.alpha.tag"), step("value", "x", VFREF)]
        needs = {"gamma": {"alpha"}}
        tags = {"obj-a": "alpha", "obj-b": "beta", "obj-c": "gamma"}
    elif name == "each":
        trigger["items"] = [{"tag": f"obj-{k}", "mode": 0} for k in range(cfg.get("n", 2))]
        loop = {"label": "loop", "ref": ref("each-rf"), "inputs": {"data": "d"}, "forEach": {"itemIn": "=parent.items", "inputKey": "item"},
                "condition": {"type": "Loop", "name": "loop"}, "state": {"loop": "=value"}}
        steps = [loop, step("after", "obj-z", data="=steps.loop")]
        needs = {"after": {"loop"}}
        tags = {f"obj-{k}": "loop" for k in range(cfg.get("n", 2))} | {"obj-z": "after"}
    elif name == "sub":
        inner = [step("in1", "obj-1"), step("in2", "obj-2")]
        subs.append(("sub", {"steps": inner}))
        steps = [{"label": "nest", "ref": {"kind": "Workflow", "name": "sub"}, "inputs": {"t": "=parent.t"}, "condition": {"type": "Nest", "name": "nest"}, "state": {"nest": "=value"}},
                 step("after", "obj-z", data="=steps.nest")]
        needs = {"after": {"nest"}}
        tags = {"obj-1": "nest", "obj-2": "nest", "obj-z": "after"}
    elif name == "switch":
        s = step("alpha", "obj-a")
        del s["ref"]
        s["refSwitch"] = {"switchOn": "=parent.t", "cases": [{"case": "t", "kind": "ResourceFunction", "name": "case-one"}, {"case": "u", "kind": "ResourceFunction", "name": "case-two"}]}
        steps = [s, step("beta", "obj-b", data="=steps.alpha.tag")]
        needs = {"beta": {"alpha"}}
        tags = {"obj-a": "alpha", "obj-b": "beta"}
    elif name == "lookup":
        steps = [step("alpha", "obj-a", ref("looker")), step("beta", "obj-b", ref("looker"))]
        needs = {}
        tags = {"obj-a": "alpha", "obj-b": "beta", None: "lookup"}
    return steps, trigger, needs, tags, subs


def stock(sx, cfg, cluster, tags):
    plural = "gadgets" if cfg["shape"] == "lookup" else "widgets"
    for tag in tags:
        if tag is None:
            continue
        st = sx.choice(f"{tag}-object", cfg.get("states", ("ok", "absent", "drift")))
        if st == "absent":
            continue
        doc = widget_doc(tag)
        if plural == "gadgets":
            doc["kind"] = "Gadget"
        if st == "drift":
            doc["spec"]["tag"] = "other"
        cluster.put(plural, OWNER_NS, tag, doc)


class Boom(Exception):
    pass


class Faults:
    """Injects one fault at a symbolic call index."""

    def __init__(self, sx, cfg, name):
        self.sx, self.cfg = sx, cfg
        self.name = name
        self.at = sx.int(f"{name}-at", 0, 40)
        self.n = 0
        self.hit = None
        self.kind = None

    def __call__(self, call, when):
        if when == "before":
            k, self.n = self.n, self.n + 1
            if self.hit is None and self.at == k:
                self.hit = call
                kinds = self.cfg.get("faults", KINDS_OF_FAULT)
                if call.verb == "GET" and not self.cfg.get("get404", True):
                    kinds = tuple(f for f in kinds if f != "404")
                self.kind = self.sx.choice(f"{self.name}-kind", kinds)
                if self.kind == "raise-before":
                    raise Boom("injected")
                if self.kind == "transport":
                    raise httpx.ConnectError("injected")
                if self.kind == "api-timeout":
                    raise kr8s.APITimeoutError("injected")
                if self.kind in ("500", "404", "409"):
                    raise server_error(int(self.kind), "injected")
                if self.kind == "hang":
                    return "hang"
        elif self.hit is call:
            if self.kind == "raise-after":
                raise Boom("injected")
            if self.kind == "500-after":
                raise server_error(500, "injected")
            if self.kind == "hang-after":
                return "hang"
        return None


async def one_pass(sx, w, trigger, cluster):
    loop = asyncio.get_running_loop()
    t0 = loop.time()
    res = await aguarded(sx, "exception-escapes", reconcile_workflow(
        api=cluster, workflow_key="wf", owner=(OWNER_NS, OWNER_REF), trigger=cel(trigger), workflow=w))
    return res, loop.time() - t0


async def settle_down(sx, w, trigger, cluster, limit=12):
    """Passes until one changes nothing."""
    for _ in range(limit):
        start = len(cluster.log)
        res, _ = await one_pass(sx, w, trigger, cluster)
        if not any(c.mutating for c in cluster.log[start:]):
            return res
    sx.fail("does-not-settle", f"{[(c.verb, c.name) for c in cluster.log]}")


def contents(cluster):
    out = []
    for p, ns, name, d in cluster.contents():
        d = bare(d)
        d.get("metadata", {}).pop("resourceVersion", None)
        out.append((p, ns, name, d))
    return sorted(out, key=lambda x: x[2])


def faults(sx, cfg):
    async def body():
        fresh()
        await logics()
        steps, trigger, needs, tags, subs = shape(sx, cfg)
        for n, s in subs:
            await offer_ok(Workflow, n, s)
        w = await offer_ok(Workflow, "wf", {"steps": steps})
        if klass(w.steps_ready) != "ok":
            raise AssertionError(w.steps_ready)
        slow = sx.choice("slow", (None, *[t for t in tags if t])) if cfg.get("slow") else None
        lat = (lambda c: 2 if slow is not None and c.name == slow else 0)
        cluster = Cluster(latency=lat)
        stock(sx, cfg, cluster, tags)
        twin = Cluster(latency=lat)
        for p, ns, name, d in cluster.contents():
            twin.put(p, ns, name, d)
        sx.note(steps=steps, trigger=trigger, objects=cluster.contents())
        labels = [s["label"] for s in steps]
        hits = []
        for i in range(cfg.get("passes", 1)):
            f = Faults(sx, cfg, f"fault{i}")
            cluster.fault = f
            start = len(cluster.log)
            res, took = await one_pass(sx, w, trigger, cluster)
            cluster.fault = None
            if f.hit is None:
                raise PathEnd()
            hits.append((f.kind, f.hit.verb, f.hit.name))
            calls = cluster.log[start:]
            report = [(c["type"], c["reason"], c["message"]) for c in res.conditions]
            info = lambda: f"fault {hits} steps={steps} slow={slow} result={res.result} conditions={report} calls={[(c.verb, str(c.name)) for c in calls]}"
            sx.check(took <= LIMIT + 0.01, "too-slow", lambda: f"{took}s {info()}")
            name = f.hit.name if f.hit.verb != "LOOKUP" else None
            label = tags[name]
            overall_ = klass(res.result)
            sx.check(overall_ in ("retry", "permfail"), "overall-ok", info)
            affected = {label} if label in labels else set()
            down = affected | {l for l in labels if needs.get(l, set()) & affected}
            for l in down:
                for c in condition(res, l.capitalize()):
                    sx.check(c["reason"] != "Ready", "claims-ready", lambda: f"{l}: {info()}")
                    if l in affected:
                        sx.check(c["reason"] in ("Wait", "Failure"), "affected-outcome", lambda: f"{l}: {info()}")
                sx.check(l not in res.state, "state-of-failed-step", lambda: f"{l}: {info()}")
            for l in affected:
                sx.check(any(r in ("Wait", "Failure") and (t == l.capitalize() or l in m) for t, r, m in report), "unreported", lambda: f"{l}: {info()}")
            for l in down - affected:
                mine = [c for c in calls if tags.get(c.name) == l]
                sx.check(not mine, "dependent-ran", lambda: f"{l}: {info()}")
            # any step whose value was not published did not succeed
            for l in labels:
                if l not in res.state:
                    for c in condition(res, l.capitalize()):
                        sx.check(c["reason"] != "Ready", "claims-ready", lambda: f"{l}: {info()}")
            for c in condition(res, "Ready"):
                sx.check(c["reason"] != "Ready", "claims-workflow-ready", info)
            sx.observe(hits, overall_, [(t, r) for t, r, _ in report])
            sx.reach(f.kind)
            sx.reach(f"{f.hit.verb}")
        # the faults stop
        cluster.fault = None
        res = await settle_down(sx, w, trigger, cluster)
        ref_res = await settle_down(sx, w, trigger, twin)
        sx.check(strict_equal(contents(cluster), contents(twin)), "contents-differ", lambda: f"after {hits}: {contents(cluster)} vs {contents(twin)}")
        a, b = whole(res, cluster), whole(ref_res, twin)
        for part in a:
            sx.check(strict_equal(a[part], b[part]), f"result-differs-{part}", lambda: f"after {hits}: {a[part]} vs {b[part]}")
        sx.reach("recovered")

    run(body())


HARNESSES = [
    Harness("faults", faults,
            quick=[dict(shape="single"), dict(shape="single", logic="recreate", passes=2), dict(shape="single", logic="reader", states=("ok",)),
                   dict(shape="single", logic="remover", states=("ok",), get404=False),
                   dict(shape="chain", states=("ok", "drift")), dict(shape="fork", slow=True, states=("ok", "absent")), dict(shape="each", slow=True),
                   dict(shape="sub", slow=True, states=("ok", "absent")), dict(shape="switch"), dict(shape="lookup", states=("ok", "absent"))],
            thorough=[dict(shape="single", passes=3), dict(shape="single", logic="recreate", passes=3), dict(shape="single", logic="reader", states=("ok",), passes=3),
                      dict(shape="single", logic="remover", states=("ok",), get404=False, passes=2),
                      dict(shape="chain", passes=2), dict(shape="fork", slow=True, passes=2), dict(shape="each", n=3, slow=True), dict(shape="each", passes=2),
                      dict(shape="sub", slow=True, passes=2), dict(shape="switch", passes=2), dict(shape="lookup", passes=2)],
            reach=(*KINDS_OF_FAULT, "GET", "POST", "PATCH", "DELETE", "LOOKUP", "recovered"),
            bounds="1..2 (thorough 3) consecutive faulty passes, each with one fault of 10 kinds at a symbolic call index; single, chain, fork, forEach, sub-workflow, "
                   "refSwitch and plural-lookup shapes; objects in sync / absent / drifted; patch, recreate, read-only and delete functions; one call slow"),
]
