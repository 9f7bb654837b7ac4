"""C01: steps run only on Ok dependencies and see exactly their values."""
import itertools

from sx.main import Harness

from checks.wflib import *

LABELS = ("alpha", "beta", "gamma", "delta", "omega")


async def play(sx, spec, trigger, cluster):
    w = await offer_ok(Workflow, "wf", spec)
    if klass(w.steps_ready) != "ok":
        raise AssertionError(f"{spec}: {w.steps_ready}")
    return await aguarded(sx, "crash", reconcile_workflow(
        api=cluster, workflow_key="wf", owner=(OWNER_NS, OWNER_REF), trigger=cel(trigger), workflow=w))


def judge(sx, spec, trigger, res, cluster, want):
    """want: label -> Out, in listed order."""
    info = lambda: (f"steps={spec['steps']} trigger={deepcopy_plain(trigger)} want={[(l, o.cls) for l, o in want.items()]} "
                    f"got={[(c['type'], c['reason'], c['message']) for c in res.conditions]} calls={[(c.verb, str(c.name)) for c in cluster.log]}")
    for label, o in want.items():
        cs = condition(res, label.capitalize())
        sx.check(len(cs) == 1, "step-unreported", lambda: f"{label}: {info()}")
        sx.check(cs[0]["reason"] == REASON[o.cls], f"outcome-{o.cls}", lambda: f"{label}: {info()}")
        if o.cls == "ok":
            sx.check(label in res.state and strict_equal(res.state[label], o.value), "value",
                     lambda: f"{label}: want {deepcopy_plain(o.value)} got {deepcopy_plain(plain(res.state.get(label)))}; {info()}")
        else:
            sx.check(label not in res.state, "value-of-nothing", lambda: f"{label}: {info()}")
        sx.reach(o.cls)
    calls = [(c.verb, c.name) for c in cluster.log]
    expected = [c for o in want.values() for c in o.calls]
    sx.check(sorted(f"{v} {n}" for v, n in calls) == sorted(f"{v} {n}" for v, n in expected), "calls",
             lambda: f"expected calls {expected}: {info()}")
    sx.check(klass(res.result) == overall([o.cls for o in want.values()]), "overall", info)
    sx.check(not res.state_errors, "state-errors", info)
    sx.observe([(l, o.cls) for l, o in want.items()], klass(res.result), plain(res.state))


def gating(sx, cfg):
    """Every DAG of n steps, symbolic outcomes and skipIfs, VF and RF Logic."""

    async def body():
        fresh()
        await offer_logics(*cfg.get("kinds", ("vf", "rf")))
        n = cfg["n"]
        trigger = {"t": sx.text("t")}
        cluster = Cluster(latency=lambda c: delays.get(str(c.name))) if cfg.get("latency") else Cluster()
        delays = {}
        steps, plans = [], []
        for i in range(n):
            label = LABELS[i]
            tag = f"obj-{i}"
            deps = [LABELS[j] for j in range(i) if sx.flag(f"dep-{i}-{j}")]
            form = sx.choice(f"form-{i}", cfg.get("forms", FORMS)) if deps else "dot"
            # one of the dependencies may be named only by skipIf
            by_skip = sx.choice(f"skip-{i}", cfg.get("skips", ("none", "parent") + (("dep",) if deps else ()))) if (deps or "parent" in cfg.get("skips", ("parent",))) else "none"
            if by_skip == "dep" and not deps:
                by_skip = "none"
            kind = sx.choice(f"kind-{i}", cfg.get("kinds", ("vf", "rf")))
            mode = trigger[f"m{i}"] = sx.int(f"m{i}", 0, 99)
            named = deps[:-1] if by_skip == "dep" and len(deps) > 1 else deps if by_skip != "dep" else []
            data, fn = dep_expr(form, named) if named else ("=parent.t", None)
            step = {"label": label, "ref": VFREF if kind == "vf" else RFREF,
                    "inputs": {"mode": f"=parent.m{i}", "tag": tag, "data": data},
                    "condition": {"type": label.capitalize(), "name": label}, "state": {label: "=value"}}
            sk = None
            if by_skip == "parent":
                sk = trigger[f"s{i}"] = sx.int(f"s{i}", 0, 99)
                step["skipIf"] = f"=parent.s{i} == 1"
            elif by_skip == "dep":
                d = deps[-1]
                sk = trigger[f"s{i}"] = sx.int(f"s{i}", 0, 99)
                step["skipIf"] = f"=steps.{d}.tag == 'obj-{LABELS.index(d)}' && parent.s{i} == 1"
            present = True
            if kind == "rf":
                if cfg.get("absent"):
                    present = not sx.flag(f"absent-{i}")
                if present:
                    cluster.put("widgets", OWNER_NS, tag, widget_doc(tag))
                if cfg.get("latency"):
                    delays[tag] = sx.ticks(f"l{i}", 0, 3)
            steps.append(step)
            plans.append((label, tag, deps, fn, sk, kind, mode, present))
        spec = {"steps": steps}
        sx.note(spec=spec, trigger=trigger)
        res = await play(sx, spec, trigger, cluster)
        want = {}
        for label, tag, deps, fn, sk, kind, mode, present in plans:
            if any(want[d].cls != "ok" for d in deps):
                want[label] = Out("depskip")
            elif sk is not None and sk == 1:
                want[label] = Out("skip")
            else:
                values = {d: want[d].value for d in deps}
                values["parent"] = trigger
                data = fn(values) if fn else trigger["t"]
                want[label] = logic_vf(mode, tag, data) if kind == "vf" else logic_rf(mode, tag, data, present)
        judge(sx, spec, trigger, res, cluster, want)
        # nothing asks for an object before what it depends on was answered
        pos = {str(c.name): k for k, c in reversed(list(enumerate(cluster.log)))}
        for label, tag, deps, *_ in plans:
            for d in deps:
                dt = f"obj-{LABELS.index(d)}"
                if tag in pos and dt in pos:
                    sx.check(pos[dt] < pos[tag], "too-early", lambda: f"{d} {label} {[(c.verb, c.name) for c in cluster.log]}")

    run(body())


def kinds(sx, cfg):
    """A step of each kind between a producer and a consumer."""

    async def body():
        fresh()
        await offer_logics("vf", "rf", *(("one", "two", "other") if cfg["kind"] == "switch" else ()))
        kind, quiet = cfg["kind"], cfg.get("quiet")
        trigger = {"t": sx.text("t"), "ma": 9 if quiet else sx.int("ma", 0, 99), "mc": 9 if quiet else sx.int("mc", 0, 99)}
        cluster = Cluster()
        cond = lambda l: {"type": l.capitalize(), "name": l}
        alpha = {"label": "alpha", "ref": VFREF, "inputs": {"mode": "=parent.ma", "tag": "obj-a", "data": "=parent"}, "condition": cond("alpha"), "state": {"alpha": "=value"}}
        beta = {"label": "beta", "condition": cond("beta"), "state": {"beta": "=value"}}
        gamma = {"label": "gamma", "ref": RFREF, "inputs": {"mode": "=parent.mc", "tag": "obj-c", "data": "=steps.beta"}, "condition": cond("gamma"), "state": {"gamma": "=value"}}
        cluster.put("widgets", OWNER_NS, "obj-c", widget_doc("obj-c"))
        behind = sx.choice("behind", cfg.get("behind", ("alpha", "nothing")))
        src = "steps.alpha.got" if behind == "alpha" else "parent"
        skip = not quiet and sx.flag("has-skip")
        if skip:
            trigger["sb"] = sx.int("sb", 0, 99)
            beta["skipIf"] = f"={src}.sb == 1"
        run_beta = None

        if kind == "switch":
            keyed = sx.choice("switch-on", ("text", "concat", "number", "inputs"))
            default = sx.flag("default")
            mode = trigger["mb"] = sx.int("mb", 0, 99)
            cluster.put("widgets", OWNER_NS, "obj-b", widget_doc("obj-b"))
            if keyed == "number":
                key = trigger["key"] = sx.int("key", 0, 5)
                names = ("1", "2", "other")
            else:
                key = trigger["key"] = sx.text("key", domain=("one", "two", "other"))
                names = ("one", "two", "other")
            # the only thing that names the producer may be what is switched on
            only = behind == "alpha" and not skip and keyed != "inputs" and sx.flag("only-switch-on")
            rest = "parent" if only else src
            e = {"text": f"={src}.key", "concat": f"='' + {src}.key", "number": f"=string({src}.key)", "inputs": "=inputs.key"}[keyed]
            beta["inputs"] = {"mode": f"={rest}.mb", "tag": "obj-b", "data": f"={rest}.t"}
            if keyed == "number":
                key = {1: "1", 2: "2"}.get(int_key(key), "none")
            if keyed == "inputs":
                beta["inputs"]["key"] = f"={src}.key"
            cases = [{"case": nm, "kind": "ResourceFunction", "name": f"case-{r}"} for nm, r in zip(names, ("one", "two", "other"))]
            if default:
                cases[sx.choice("which", (0, 2))]["default"] = True
            beta["refSwitch"] = {"switchOn": e, "cases": cases}

            def run_beta():
                for nm, r in zip(names, ("one", "two", "other")):
                    if strict_equal(key, nm):
                        return logic_rf(mode, "obj-b", trigger["t"], by=r, function=f"case-{r}")
                for c, r in zip(cases, ("one", "two", "other")):
                    if c.get("default"):
                        return logic_rf(mode, "obj-b", trigger["t"], by=r, function=f"case-{r}")
                return Out("permfail")
        elif kind == "each":
            ref = sx.choice("ref", cfg.get("refs", ("vf", "rf")))
            size = sx.choice("size", cfg.get("sizes", (0, 1, 2)))
            modes = [sx.int(f"e{k}", 0, 99) for k in range(size)]
            trigger["items"] = [{"m": m, "tag": f"obj-b{k}"} for k, m in enumerate(modes)]
            for k in range(size):
                cluster.put("widgets", OWNER_NS, f"obj-b{k}", widget_doc(f"obj-b{k}"))
            # the item is the whole input besides `data`
            renames = {"inputs.mode": "inputs.item.m", "inputs.tag": "inputs.item.tag"}
            if ref == "vf":
                await offer_ok(ValueFunction, "each-vf", rewrite(vf_spec(), renames))
                beta["ref"] = {"kind": "ValueFunction", "name": "each-vf"}
            elif ref == "rf":
                await offer_ok(ResourceFunction, "each-rf", rewrite(rf_logic(), renames))
                beta["ref"] = {"kind": "ResourceFunction", "name": "each-rf"}
            elif ref == "switch":
                # which case is decided for every item
                await offer_ok(ValueFunction, "each-vf", rewrite(vf_spec(), renames))
                await offer_ok(ResourceFunction, "each-rf", rewrite(rf_logic(), renames))
                for k, it in enumerate(trigger["items"]):
                    it["which"] = sx.text(f"which{k}", domain=("one", "two"))
                beta["refSwitch"] = {"switchOn": "=inputs.item.which", "cases": [
                    {"case": "one", "kind": "ValueFunction", "name": "each-vf"}, {"case": "two", "kind": "ResourceFunction", "name": "each-rf"}]}
            else:
                await offer_ok(ResourceFunction, "each-rf", rewrite(rf_logic(), renames))
                await offer_ok(Workflow, "each-wf", {"steps": [
                    {"label": "inner", "ref": {"kind": "ResourceFunction", "name": "each-rf"},
                     "inputs": {"item": "=parent.item", "data": "=parent.data"}, "state": {"one": "=value"}}]})
                beta["ref"] = {"kind": "Workflow", "name": "each-wf"}
            only = behind == "alpha" and not skip and sx.flag("only-item-in")
            beta["inputs"] = {"data": "=parent.t" if only else f"={src}.t"}
            beta["forEach"] = {"itemIn": f"={src}.items", "inputKey": "item"}

            def run_beta():
                outs = []
                for k, m in enumerate(modes):
                    tag = f"obj-b{k}"
                    by = ref
                    if ref == "switch":
                        which = trigger["items"][k]["which"]
                        by = "vf" if strict_equal(which, "one") else "rf" if strict_equal(which, "two") else None
                        if by is None:
                            outs.append(Out("permfail"))
                            continue
                    o = logic_vf(m, tag, trigger["t"]) if by == "vf" else logic_rf(m, tag, trigger["t"], function="each-rf")
                    if by == "wf" and o.cls == "ok":
                        o.value = {"one": o.value}
                    outs.append(o)
                calls = [c for o in outs for c in o.calls]
                bad = [o.cls for o in outs if o.cls in ("retry", "permfail")]
                if bad:
                    return Out(overall(bad), calls=calls)
                return Out("ok", [o.value if o.cls == "ok" else ANY for o in outs], calls)
        elif kind == "sub":
            m1, m2 = trigger["m1"], trigger["m2"] = sx.int("m1", 0, 99), sx.int("m2", 0, 99)
            cluster.put("widgets", OWNER_NS, "obj-b1", widget_doc("obj-b1"))
            cluster.put("widgets", OWNER_NS, "obj-b2", widget_doc("obj-b2"))
            linked = sx.flag("linked")
            sub = {"steps": [
                {"label": "inner1", "ref": RFREF, "inputs": {"mode": "=parent.m1", "tag": "obj-b1", "data": "=parent.t"}, "state": {"one": "=value"}},
                {"label": "inner2", "ref": RFREF, "inputs": {"mode": "=parent.m2", "tag": "obj-b2", "data": "=steps.inner1.tag" if linked else "=parent.t"}, "state": {"two": "=value.got"}},
            ]}
            w = await offer_ok(Workflow, "sub", sub)
            beta["ref"] = {"kind": "Workflow", "name": "sub"}
            beta["inputs"] = {"t": f"={src}.t", "m1": f"={src}.m1", "m2": f"={src}.m2"}

            def run_beta():
                o1 = logic_rf(m1, "obj-b1", trigger["t"])
                o2 = Out("depskip") if linked and o1.cls != "ok" else logic_rf(m2, "obj-b2", o1.value["tag"] if linked else trigger["t"])
                calls = o1.calls + o2.calls
                c = overall([o1.cls, o2.cls])
                value = {}
                if o1.cls == "ok":
                    value["one"] = o1.value
                if o2.cls == "ok":
                    value["two"] = o2.value["got"]
                return Out(c, value if c == "ok" else None, calls)

        steps = [alpha, beta, gamma]
        if sx.flag("gamma-beside"):
            gamma["inputs"]["data"] = "=parent.t"
        beside = gamma["inputs"]["data"] == "=parent.t"
        spec = {"steps": steps}
        sx.note(spec=spec, trigger=trigger)
        res = await play(sx, spec, trigger, cluster)
        want = {"alpha": logic_vf(trigger["ma"], "obj-a", trigger)}
        if behind == "alpha" and want["alpha"].cls != "ok":
            want["beta"] = Out("depskip")
        elif skip and trigger["sb"] == 1:
            want["beta"] = Out("skip")
        else:
            want["beta"] = run_beta()
        if not beside and want["beta"].cls != "ok":
            want["gamma"] = Out("depskip")
        else:
            want["gamma"] = logic_rf(trigger["mc"], "obj-c", trigger["t"] if beside else want["beta"].value)
        if want["beta"].cls == "ok" and has_any(want["beta"].value):
            # informational text of a skipped iteration: take what was reported
            got = plain(res.state.get("beta"))
            ok = isinstance(got, list) and len(got) == len(want["beta"].value)
            sx.check(ok, "each-length", lambda: f"{deepcopy_plain(got)}")
            fixed = [g if w is ANY else w for g, w in zip(got, want["beta"].value)]
            for g, w in zip(got, want["beta"].value):
                if w is ANY:
                    sx.check(isinstance(g, str), "each-skip", lambda: f"{deepcopy_plain(got)}")
            want["beta"].value = fixed
            if want["gamma"].cls == "ok" and not beside:
                want["gamma"].value["got"] = fixed
        judge(sx, spec, trigger, res, cluster, want)

    run(body())


class _Any:
    pass


ANY = _Any()


def has_any(v):
    return isinstance(v, list) and any(x is ANY for x in v)


def int_key(k):
    for n in (1, 2):
        if k == n:
            return n
    return 0


def rewrite(v, names):
    if isinstance(v, dict):
        return {k: rewrite(x, names) for k, x in v.items()}
    if isinstance(v, list):
        return [rewrite(x, names) for x in v]
    if isinstance(v, str):
        for a, b in names.items():
            v = v.replace(a, b)
    return v


BUDGET = {"quick": 100, "thorough": 840}
ALL = ("ok", "skip", "depskip", "retry", "permfail")
HARNESSES = [
    Harness("gating", gating,
            quick=[dict(n=2, absent=True), dict(n=3, forms=("index",), skips=("none",), kinds=("rf",)),
                   dict(n=3, forms=("whole",), skips=("parent", "dep"), kinds=("vf",)),
                   dict(n=3, forms=("dot",), skips=("none",), kinds=("rf",), latency=True)],
            thorough=[dict(n=2, absent=True, latency=True), dict(n=3), dict(n=4, forms=("index",), skips=("none",), kinds=("rf",)),
                      dict(n=4, forms=("deep",), skips=("none",), kinds=("vf",))],
            reach=ALL,
            bounds="every dependency graph of 2..3 (thorough 4) steps; symbolic outcome classes and skipIfs; 7 ways to name a dependency; "
                   "ValueFunction and ResourceFunction Logic; one configuration with symbolic API latencies"),
    Harness("kinds", kinds, quick=[dict(kind="switch"), dict(kind="each"), dict(kind="each", refs=("switch", "wf"), sizes=(2,), quiet=True), dict(kind="sub")],
            thorough=[dict(kind="switch"), dict(kind="each", sizes=(0, 1, 2, 3)), dict(kind="each", refs=("switch", "wf"), sizes=(1, 2, 3)), dict(kind="sub")], reach=ALL,
            bounds="refSwitch with 3 cases selected by a symbolic text / number / concatenation, with and without default; forEach over 0..2 (thorough 3) items of Functions, of a refSwitch on the item and of sub-workflows; "
                   "sub-workflows of two steps; each between a producer and a consumer"),
]
