"""C14: references in expressions become dependencies; named definitions are watched."""
from sx.main import Harness

from checks.exprs import *
from checks.wflib import *

R = registry.Resource
FIELDS = ("inputs", "inputs-nested", "inputs-list", "skipIf", "itemIn", "switchOn", "state", "state-nested")


def target(field, expr, label="main"):
    """A step with the expression in the field."""
    step = {"label": label, "ref": {"kind": "ValueFunction", "name": "vf"}}
    e = "=" + expr
    if field == "inputs":
        step["inputs"] = {"k": e}
    elif field == "inputs-nested":
        step["inputs"] = {"plain": 1, "k": {"deep": [{"er": e}]}}
    elif field == "inputs-list":
        step["inputs"] = {"k": ["x", e]}
    elif field == "skipIf":
        step["skipIf"] = e
    elif field == "itemIn":
        step["forEach"] = {"itemIn": e, "inputKey": "item"}
    elif field == "switchOn":
        del step["ref"]
        step["refSwitch"] = {"switchOn": e, "cases": [{"case": "a", "kind": "ValueFunction", "name": "vf"}, {"case": "b", "kind": "ValueFunction", "name": "vf", "default": True}]}
    elif field == "state":
        step["state"] = {"k": e}
    else:
        step["state"] = {"k": {"deep": ["x", e]}}
    return step


def plain_step(label):
    return {"label": label, "ref": {"kind": "ValueFunction", "name": "vf"}}


async def workflow_of(sx, steps):
    await offer_ok(ValueFunction, "vf", {"return": {"x": 1}})
    got = await aguarded(sx, "crash", prepare_workflow("wf", {"steps": steps}))
    if not isinstance(got, tuple):
        sx.fail("not-prepared", lambda: f"{deepcopy_plain(steps)} -> {got}")
    return got


def ready(wf):
    return klass(wf.steps_ready) == "ok"


def deps(wf, label):
    for s in wf.steps:
        if s.label == label and hasattr(s, "dynamic_input_keys"):
            return set(s.dynamic_input_keys)
    return None


def judge(sx, wf, expr, field, names, known=("one", "two")):
    """The expression references these step names."""
    what = lambda: f"{field}: {expr!r} -> ready={ready(wf)} deps={deps(wf, 'main')} message={getattr(wf.steps_ready, 'message', None)}"
    bad = [n for n in names if n not in known]
    if bad:
        sx.check(not ready(wf), "ran-bad-reference", what)
        sx.reach("rejected")
    else:
        sx.check(ready(wf), "rejected-good", what)
        got = deps(wf, "main")
        sx.check(got is not None and set(names) <= got, "missed", what)
        sx.reach("dependency")


def shapes(sx, cfg):
    async def body():
        fresh()
        field = sx.choice("field", cfg["fields"])
        name = sx.choice("name", cfg.get("names", ("one",)))
        form = sx.choice("form", cfg["forms"])
        expr = reference(form, "steps", name)
        expr += sx.choice("suffix", cfg["suffixes"])
        for i in range(cfg["contexts"]):
            expr = put(sx.choice(f"context{i}", cfg.get("shapes", CONTEXTS)), expr)
        names = [name]
        if cfg.get("second"):
            expr = sx.choice("join", ("@1 + @2", "[@2, @1]", "f(@1, @2)", "@1 ? @2 : 0", "{@1: @2}", "@1[@2]", "@1.g(@2)", "[@1].map(x, @2)")).replace("@1", expr if closed(expr) else f"({expr})").replace("@2", "steps.two.y")
            names.append("two")
        wf, watched = await workflow_of(sx, [plain_step("one"), plain_step("two"), target(field, expr), plain_step("later")])
        judge(sx, wf, expr, field, names)
        sx.note(expr=expr, field=field)
        sx.observe(expr, ready(wf), sorted(deps(wf, "main") or ()))

    run(body())


def names(sx, cfg):
    """Quoted names of symbolic characters against the labels of the workflow."""

    async def body():
        fresh()
        field = sx.choice("field", cfg["fields"])
        n = sx.choice("length", cfg["lengths"])
        name = sx.chars("name", n, exclude="\"'\\\n\r")
        quote = sx.choice("quote", cfg.get("quotes", ("'", '"')))
        expr = sx.choice("pre", ("steps[", "(steps)[")) + quote + name + quote + "]" + sx.choice("post", ("", ".b", "[0]"))
        labels = cfg["labels"]
        wf, _ = await workflow_of(sx, [plain_step(x) for x in labels] + [target(field, expr), plain_step("later")])
        known = [x for x in labels if x == name]
        what = lambda: f"{deepcopy_plain(expr)!r} ready={ready(wf)} deps={deepcopy_plain(deps(wf, 'main'))}"
        if known:
            sx.check(ready(wf), "rejected-good", what)
            got = deps(wf, "main")
            sx.check(got is not None and any(g == known[0] for g in got), "missed", what)
            sx.reach("dependency")
        else:
            sx.check(not ready(wf), "ran-bad-reference", what)
            sx.reach("rejected")
        sx.note(expr=deepcopy_plain(expr))
        sx.observe(ready(wf))

    run(body())


LITERALS = {
    "vf": (ValueFunction, "ValueFunction"), "rf": (ResourceFunction, "ResourceFunction"), "wf": (Workflow, "Workflow"),
}


def order(sx, cfg):
    """Labels, positions and references chosen freely: what names something later, unknown or itself is not ready."""

    async def body():
        fresh()
        n = cfg["n"]
        labels = [sx.choice(f"label{i}", cfg["labels"]) for i in range(n)]
        steps, refs = [], []
        for i, label in enumerate(labels):
            if sx.flag(f"refers{i}"):
                name = sx.choice(f"to{i}", cfg["labels"])
                steps.append(target(sx.choice(f"field{i}", cfg["fields"]), f"steps.{name}.b", label))
                refs.append({name})
            else:
                steps.append(plain_step(label))
                refs.append(set())
        wf, _ = await workflow_of(sx, steps)
        bad = []
        for i in range(n):
            if labels[i] in labels[:i] or not refs[i] <= set(labels[:i]):
                bad.append(i)
        what = lambda: f"labels {labels} refer to {refs}: ready={ready(wf)}"
        if bad:
            sx.check(not ready(wf), "ran-bad-reference", what)
            sx.reach("rejected")
        else:
            sx.check(ready(wf), "rejected-good", what)
            for i in range(n):
                got = deps(wf, labels[i])
                sx.check(got is not None and refs[i] <= got, "missed", lambda: f"{labels[i]}: {got}; {what()}")
            sx.reach("dependency")
        sx.note(labels=labels, refs=[sorted(r) for r in refs])
        sx.observe(ready(wf))

    run(body())


async def world(sx, kinds, names):
    """Each named definition is cached, cached but broken, or absent."""
    for k, name in zip(kinds, names):
        state = sx.choice(f"state-{name}", ("ok", "broken", "absent"))
        if state == "absent":
            continue
        cls = LITERALS[k][0]
        if state == "broken":
            await offer(cls, name, {})
        elif k == "vf":
            await offer(cls, name, {"return": {"a": "=inputs.need"} if sx.flag(f"needs-{name}") else {"a": 1}})
        elif k == "rf":
            await offer(cls, name, rf_spec({"spec": {"a": 1}}))
        else:
            await offer(Workflow, name, {"steps": [{"label": "inner", "ref": {"kind": "ValueFunction", "name": "nothing"}}]})


BREAKS = ("none", "bad-skipIf", "bad-inputs", "bad-itemIn", "bad-state", "bad-switchOn", "duplicate", "later-ref", "two-defaults", "empty-inputKey")


def watch_workflow(sx, cfg):
    async def body():
        fresh()
        names = ["fa", "fb", "fc"][: cfg["refs"]]
        kinds = [sx.choice(f"kind{i}", ("vf", "rf", "wf")) for i in range(len(names))]
        await offer_ok(ValueFunction, "vf", {"return": {"x": 1}})
        await world(sx, kinds, names)
        how = sx.choice("how", cfg["breaks"])
        refs = [{"kind": LITERALS[k][1], "name": n} for k, n in zip(kinds, names)]
        steps = [{"label": "one", "ref": refs[0]}]
        switch = {"switchOn": "=1 +" if how == "bad-switchOn" else "='a'",
                  "cases": [dict(r, case=f"c{i}", **({"default": True} if how == "two-defaults" or sx.flag(f"default{i}") else {})) for i, r in enumerate(refs[1:])]}
        second = {"label": "one" if how == "duplicate" else "two", "refSwitch": switch}
        if sx.flag("same-case"):
            for c in switch["cases"]:
                c["case"] = "c"
        if how == "bad-skipIf":
            second["skipIf"] = "=1 +"
        elif how == "bad-inputs":
            second["inputs"] = {"a": "=("}
        elif how == "bad-itemIn":
            second["forEach"] = {"itemIn": "=[", "inputKey": "x"}
        elif how == "bad-state":
            second["state"] = {"a": "=)"}
        elif how == "later-ref":
            second["inputs"] = {"a": "=steps.three"}
        elif how == "empty-inputKey":
            second["forEach"] = {"itemIn": "=[1]", "inputKey": ""}
        steps.append(second)
        steps.append({"label": "three", "ref": {"kind": "ValueFunction", "name": "vf"}})
        got = await aguarded(sx, "crash", prepare_workflow("w", {"steps": steps}))
        if not isinstance(got, tuple):
            sx.fail("not-prepared", lambda: f"{steps} -> {got}")
        wf, watched = got
        watched = set(watched)
        for k, n in [*zip(kinds, names), ("vf", "vf")]:
            sx.check(R(resource_type=LITERALS[k][0], name=n) in watched, "unwatched", lambda: f"{LITERALS[k][1]} {n} is not in {sorted((w.resource_type.__name__, w.name) for w in watched)} ({how}: {steps})")
        sx.reach(how)
        sx.note(steps=steps)
        sx.observe(sorted((w.resource_type.__name__, w.name) for w in watched), ready(wf))

    run(body())


def watch_overlays(sx, cfg):
    async def body():
        fresh()
        names = ["fa", "fb"]
        await world(sx, ["vf", "vf"], names)
        overlays, hows = [], []
        for i, n in enumerate(names):
            o = {"overlayRef": {"kind": "ValueFunction", "name": n}}
            how = sx.choice(f"how{i}", ("none", "skipIf", "bad-skipIf", "inputs", "bad-inputs", "other-inputs"))
            if how == "skipIf":
                o["skipIf"] = "=inputs.s"
            elif how == "bad-skipIf":
                o["skipIf"] = "=1 +"
            elif how == "inputs":
                o["inputs"] = {"need": 1}
            elif how == "bad-inputs":
                o["inputs"] = {"need": "=("}
            elif how == "other-inputs":
                o["inputs"] = {"more": 1}
            overlays.append(o)
            hows.append(how)
        if sx.flag("inline"):
            overlays.insert(1, {"overlay": {"spec": {"z": 1 if sx.flag("good-inline") else "=("}}})
        got = await aguarded(sx, "crash", prepare_resource_function("rf", rf_spec({"spec": {"a": 1}}, overlays=overlays)))
        if not isinstance(got, tuple):
            sx.fail("not-prepared", lambda: f"{overlays} -> {got}")
        watched = set(got[1] or ())
        for n in names:
            sx.check(R(resource_type=ValueFunction, name=n) in watched, "unwatched", lambda: f"{n} is not in {[w.name for w in watched]} ({hows}: {overlays})")
        sx.reach("watched")
        sx.note(overlays=overlays)
        sx.observe(sorted(w.name for w in watched))

    run(body())


def watch_function_test(sx, cfg):
    async def body():
        fresh()
        kind = sx.choice("kind", ("vf", "rf"))
        state = sx.choice("state", ("ok", "broken", "absent"))
        name = sx.text("name")
        cls = LITERALS[kind][0]
        templates = set()
        form = None
        if state == "ok":
            if kind == "vf":
                await offer(cls, name, {"return": {"a": 1}})
            else:
                form = sx.choice("template", ("none", "static", "input", "local"))
                spec = rf_spec({"spec": {"a": 1}})
                if form != "none":
                    spec.pop("resource")
                    spec["resourceTemplateRef"] = {"name": {"static": "tmpl", "input": "=inputs.t", "local": "=locals.t"}[form]}
                    if form == "local":
                        spec["locals"] = {"t": "=inputs.t"}
                await offer(cls, name, spec)
        elif state == "broken":
            await offer(cls, name, {})
        base = sx.choice("base", (None, "ta", "tb"))
        spec = {"functionRef": {"kind": LITERALS[kind][1], "name": name}, "testCases": []}
        if base:
            spec["inputs"] = {"t": base}
        if form == "static":
            templates.add("tmpl")
        for i in range(cfg["cases"]):
            over = sx.choice(f"over{i}", (None, "ta", "tc"))
            case = {"expectOutcome": {"ok": {}}}
            if over:
                case["inputOverrides"] = {"t": over}
            if sx.flag(f"variant{i}"):
                case["variant"] = True
            spec["testCases"].append(case)
            if form in ("input", "local") and (over or base):
                templates.add(over or base)
        if form == "local" and not all(base or c.get("inputOverrides") for c in spec["testCases"]):
            raise PathEnd()  # see C20
        got = await aguarded(sx, "crash", prepare_function_test("ft", spec))
        if not isinstance(got, tuple):
            sx.fail("not-prepared", lambda: f"{deepcopy_plain(spec)} -> {got}")
        watched = list(got[1] or ())
        sx.check(any(w.resource_type is cls and w.name == name for w in watched), "unwatched", lambda: f"{deepcopy_plain(spec)} -> {[deepcopy_plain(w.name) for w in watched]}")
        for t in templates:
            sx.check(any(w.resource_type is ResourceTemplate and w.name == t for w in watched), "unwatched-template", lambda: f"{t}: {deepcopy_plain(spec)} -> {[deepcopy_plain(w.name) for w in watched]}")
        sx.reach(state)
        if templates:
            sx.reach("templates")
        sx.note(spec=deepcopy_plain(spec))
        sx.observe(len(watched))

    run(body())


LABELS = ("one", "two", "a.b", "o[0]", "st eps")

HARNESSES = [
    Harness("shapes", shapes,
            quick=[dict(fields=FIELDS, names=("one", "nope", "main", "later"), forms=REFS, suffixes=[""], contexts=0),
                   dict(fields=["inputs"], forms=REFS, suffixes=SUFFIXES, contexts=1, shapes=CONTEXTS[:12] + ["@.f(1).b", "[1].map(x, @)", "has(@)"]),
                   dict(fields=["inputs"], forms=["@V.@N", "@V['@N']", "(@V).@N"], suffixes=["", ".b[0]"], contexts=1),
                   dict(fields=["skipIf", "itemIn", "switchOn", "state"], forms=["@V.@N"], suffixes=["", ".b"], contexts=1),
                   dict(fields=["inputs"], forms=["@V.@N"], suffixes=[".b"], contexts=2),
                   dict(fields=["inputs"], forms=["@V.@N", "@V['@N']"], suffixes=["", ".b"], contexts=1, second=True)],
            thorough=[dict(fields=FIELDS, names=("one", "nope", "main", "later"), forms=REFS, suffixes=SUFFIXES, contexts=0),
                      dict(fields=["inputs"], forms=REFS, suffixes=SUFFIXES, contexts=1),
                      dict(fields=FIELDS, forms=["@V.@N", "@V['@N']", "(@V).@N"], suffixes=["", ".b[0]", ".f(1)"], contexts=1),
                      dict(fields=["inputs", "skipIf"], forms=["@V.@N", "@V['@N']"], suffixes=["", ".b"], contexts=2),
                      dict(fields=["inputs"], forms=REFS, suffixes=["", ".b"], contexts=1, second=True)],
            reach=("dependency", "rejected"),
            bounds="20 spellings of a reference (dot, index, quoting, escapes, raw, parentheses, root dot, white space, comment) x 19 following accesses x 57 syntactic contexts nested up to 2 deep, alone or with a second reference, in 8 expression fields of a step; "
                   "the name is a prior, unknown, own or later label"),
    Harness("names", names,
            quick=[dict(fields=["inputs", "skipIf"], lengths=(1, 2, 3), labels=("one", "two", "a.b"))],
            thorough=[dict(fields=FIELDS, lengths=(1, 2, 3, 4), labels=("one", "two", "a.b", "o[0]", "o{1}"), quotes=("'", '"', '"""'))],
            reach=("dependency", "rejected"),
            bounds="quoted names of 1-3 (thorough 1-4) symbolic characters (any but quotes, backslash and line ends) against labels that contain dots, brackets and letters"),
    Harness("order", order,
            quick=[dict(n=3, labels=("one", "two", "zed"), fields=["inputs", "state"])],
            thorough=[dict(n=3, labels=("one", "two", "zed"), fields=FIELDS), dict(n=4, labels=("one", "two", "three", "four"), fields=["inputs"])],
            reach=("dependency", "rejected"),
            bounds="3 (thorough 4) steps with any labels, each referring to any label or none"),
    Harness("watch_workflow", watch_workflow,
            quick=[dict(refs=3, breaks=BREAKS)], thorough=[dict(refs=3, breaks=BREAKS)], reach=BREAKS,
            bounds="a step by reference, a step by switch over two cases (same or distinct case values, defaults) and a third; definitions of each kind, present, broken or absent; one of 9 faults elsewhere in the definition"),
    Harness("watch_overlays", watch_overlays, quick=[dict()], thorough=[dict()], reach=("watched",),
            bounds="two overlay functions (present, needing inputs, broken, absent) with skipIf/inputs well-formed, broken or insufficient, with an inline overlay between"),
    Harness("watch_function_test", watch_function_test, quick=[dict(cases=2)], thorough=[dict(cases=3)], reach=("ok", "broken", "absent", "templates"),
            bounds="Value/ResourceFunction under test present, broken or absent, its name symbolic; template named statically, by inputs or by locals; 2-3 test cases overriding the input"),
]
