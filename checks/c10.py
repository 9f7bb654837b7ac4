"""C10: expression failures surface as PermFail, never as crashes or leaked errors."""
import celpy

from sx.main import Harness

from checks.rflib import *

# Expressions that fail whatever the inputs are (each evaluates to a celpy error
# on its own: an operand celpy itself consumes, as in `err == 'x'`, `string(err)`
# or `true || err`, is no failure and is not listed).
ATOMS = (
    "inputs.nope", "inputs.nope.x.y", "inputs.nope[0]", "inputs.map.nope", "inputs.map['nope']", "inputs.list[9]",
    "inputs.list[-7]", "novar", "nofn(1)", "1/0", "1%0", "9223372036854775807 + 1", "1 + 'a'", "'a' < 1",
    "'a' + inputs.nope", "[1] + inputs.nope", "-inputs.nope", "!inputs.nope", "!inputs.text", "(inputs.nope ? 1 : 2)",
    "inputs.nope && true", "inputs.nope || false", "1 in inputs.nope", "inputs.text.nope", "{inputs.nope: 1}", "[{1/0: 1}]",
    "int('x')", "double('x')", "bool('x')", "timestamp('x')", "duration('x')", "size(inputs.nope)", "size(1)",
    "'a'.matches('[')", "'a'.nomethod()", "inputs.text.contains(inputs.nope)",
    "[1].map(x, x/0)", "[1].filter(x, inputs.nope)", "[1].all(x, inputs.nope)", "[1].exists(x, x/0 == 1)",
    "inputs.nope.map(x, x)", "inputs.list.map(x, x.nope)", "inputs.list.map(x, {'deep': [x, inputs.nope]})",
    # koreo's own functions
    "to_ref({})", "to_ref({'name': ''})", "to_ref({'external': ''})", "to_ref(1)", "to_ref(inputs.nope)", "to_ref({'name': inputs.nope})",
    "to_ref({'external': 'x', 'name': inputs.nope})",
    "self_ref({})", "self_ref(inputs.nope)", "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': 'n', 'namespace': inputs.nope}})",
    "group_ref({'kind': 'x'})", "group_ref({'apiVersion': inputs.nope, 'kind': 'K', 'name': 'n'})", "group_ref({'apiGroup': 1/0, 'name': 'n'})",
    "kindless_ref({'name': ''})", "kindless_ref({'name': 'x', 'namespace': inputs.nope})",
    "config_connect_ready(1)", "config_connect_ready(inputs.nope)", "config_connect_ready({'status': {'conditions': [{'type': 'Ready', 'reason': inputs.nope}]}})",
    "overlay({'a': 1}, 1)", "overlay(1, {'a': 1})", "overlay(inputs.nope, {})", "overlay({}, {'a': inputs.nope})", "overlay({'a': {}}, {'a': {'b': 1/0}})",
    "flatten(5)", "flatten([[1], 5])", "flatten([inputs.nope])", "flatten([[inputs.nope]])",
    "lower(1)", "lower(inputs.nope)", "lower()", "strip(1, 'a')", "strip('a', inputs.nope)", "rstrip('a', 1)",
    "split('a', '')", "split(inputs.nope, 'a')", "split('a')", "split_first('a', '')", "split_first(1, 'a')", "split_last('a', '')",
    "split_index('a-b', '-', 7)", "split_index('a-b', '-', 'x')", "split_index('a', '', 0)", "split_index(inputs.nope, '-', 0)",
    "to_json({'a': inputs.nope})", "to_json(novar)", "from_json('{bad')", "from_json(inputs.nope)", "from_json(1)",
    "b64encode(1)", "b64encode(inputs.nope)", "b64decode(1)", "b64decode(inputs.nope)", "b64decode('/w==')",
    "replace('a', 1, 'b')", "replace(inputs.nope, 'a', 'b')", "replace('a', 'a', inputs.nope)",
)
SHORT = ("inputs.nope", "1/0", "novar", "[1].map(x, x/0)", "to_ref({})", "to_ref({'name': inputs.nope})", "lower(1)",
         "overlay({}, {'a': inputs.nope})", "from_json('{bad')", "split_index('a-b', '-', 7)")

# How the expression contains it (X).
WRAPS = (
    "X", "{'a': X}", "[X]", "[1, [X]]", "{'a': [{'b': X}, 2]}", "{'a': {'b': {'c': [[X]]}}}", "inputs.list.map(x, X)",
    "inputs.list.map(x, {'v': [X]})", "true ? X : 1", "false ? 1 : {'k': X}", "[X] + [1]", "to_json([X])", "to_json({'k': {'j': X}})",
    "overlay({'a': 1}, {'b': X})", "overlay({'a': {'c': 1}}, {'a': {'b': X}})", "overlay({'a': X}, {'a': 1})", "flatten([[1], [X]])",
    "to_ref({'name': X})", "inputs.list.map(x, inputs.list.map(y, X))", "dyn(X)", "{'a': [true, X].map(y, y)}",
)
PLAIN = ("X", "{'a': X}", "[1, [X]]", "{'a': [{'b': X}, 2]}", "inputs.list.map(x, {'v': [X]})", "true ? X : 1", "to_json([X])")

# How the definition contains the expression (E): a YAML value.
NESTS = {
    "plain": lambda e: e,
    "map": lambda e: {"k": "v", "deep": {"e": e, "z": 1}},
    "list": lambda e: [1, "=inputs.text", e],
    "list-of-maps": lambda e: [{"a": [{"b": e}]}, "x"],
}


def failing(sx, cfg, inputs):
    """-> (expression, does it fail, value otherwise)."""
    inputs.update({"text": "text", "list": [1, 2], "map": {"k": 1}, "ok": True})
    how = sx.choice("atom-kind", ("constant", *cfg.get("symbolic", ())))
    if how == "constant":
        atom = sx.choice("atom", cfg.get("atoms", ATOMS))
        wrap = sx.choice("wrap", cfg.get("wraps", WRAPS))
        return "=" + wrap.replace("X", atom), True
    wrap = sx.choice("wrap", PLAIN)
    if how == "divide":
        d = inputs["d"] = sx.int("d", -(2**31), 2**31)
        return "=" + wrap.replace("X", "100 / inputs.d"), d == 0
    if how == "modulo":
        d = inputs["d"] = sx.int("d", -(2**31), 2**31)
        return "=" + wrap.replace("X", "inputs.list.map(q, q % (inputs.d - 3))"), d == 3
    if how == "index":
        i = inputs["i"] = sx.int("i")
        return "=" + wrap.replace("X", "inputs.list[inputs.i]"), not (-2 <= i <= 1)
    if how == "overflow":
        i = inputs["i"] = sx.int("i")
        return "=" + wrap.replace("X", "inputs.i + 9223372036854775000"), i > 807
    if how == "key":
        t = inputs["key"] = sx.text("key", domain=("k",))
        return "=" + wrap.replace("X", "inputs.map[inputs.key]"), not strict_equal(t, "k")
    if how == "split":
        i = inputs["i"] = sx.int("i", -10, 10)
        return "=" + wrap.replace("X", "split_index('a-b-c', '-', inputs.i)"), not (-3 <= i <= 2)
    if how == "present":
        if sx.flag("present"):
            inputs["maybe"] = sx.text("maybe")
            return "=" + wrap.replace("X", "inputs.maybe"), False
        return "=" + wrap.replace("X", "inputs.maybe"), True
    if how == "separator":
        t = inputs["sep"] = sx.text("sep", nonempty=False)
        return "=" + wrap.replace("X", "split_first('a', inputs.sep)"), strict_equal(t, "")
    if how == "name":
        t = inputs["nm"] = sx.text("nm", nonempty=False)
        return "=" + wrap.replace("X", "to_ref({'name': inputs.nm})"), strict_equal(t, "")
    raise AssertionError(how)


SYMBOLIC = ("divide", "modulo", "index", "overflow", "key", "present")


def leaked(v, depth=0):
    """An exception anywhere inside?"""
    if isinstance(v, BaseException):
        return v
    if isinstance(v, dict):
        for k, x in v.items():
            e = leaked(k) or leaked(x)
            if e:
                return repr(e)
    elif isinstance(v, (list, tuple)):
        for x in v:
            e = leaked(x)
            if e:
                return repr(e)
    return None


def no_leak(sx, what, v, info):
    e = leaked(v)
    sx.check(not e, f"leaked-{what}", lambda: f"{e} in {what}: {info()}")


def judge(sx, out, fails, token, info):
    if fails:
        sx.check(klass(out) == "permfail", "not-permfail", info)
        sx.check(token in f"{out.message} {out.location}", "location", lambda: f"expected {token}: {info()}")
        sx.reach("failed")
    else:
        sx.check(klass(out) not in ("permfail", "skip", "depskip"), "failed-anyway", info)
        sx.reach("evaluated")
    no_leak(sx, "result", out, info)


# ------------------------------------------------------------------- harnesses
def value_function(sx, cfg):
    async def body():
        fresh()
        inputs = {}
        e, fails = failing(sx, cfg, inputs)
        where = sx.choice("where", ("return", "locals", "preconditions", "message"))
        nest = "plain"
        spec = {"return": {"r": "=inputs.text"}}
        if where in ("return", "locals"):
            nest = sx.choice("nest", cfg.get("nests", tuple(NESTS)))
            v = NESTS[nest](e)
            if where == "return":
                spec["return"] = {"a": 1, "r": v, "z": "=inputs.ok"}
            else:
                spec["locals"] = {"a": 1, "r": v}
        elif where == "preconditions":
            n = sx.choice("position", (0, 1))
            checks = [{"assert": "=true", "skip": {"message": "m"}}] * n + [{"assert": f"=[{e[1:]}] == [{e[1:]}]" if not fails else e, "retry": {"message": "r", "delay": 3}}]
            spec["preconditions"] = checks
        else:
            spec["preconditions"] = [{"assert": "=false", "permFail": {"message": e}}]
            if not fails:
                raise_message(sx)
        base = sx.choice("base", ("none", "map"))
        f = await offer(ValueFunction, "vf", spec)
        if klass(f) != "ok":
            raise AssertionError(f"{spec} {f}")
        sx.note(spec=spec, inputs=inputs)
        out = await aguarded(sx, "crash", reconcile_value_function("loc", f, cel(inputs), **({} if base == "none" else {"value_base": cel({"r": {"k": "b"}})})))
        info = lambda: f"{where}: {spec} {deepcopy_plain(inputs)} -> {type(out).__name__} {out}"
        sx.observe(klass(out), fails)
        judge(sx, out, fails, "preconditions" if where == "message" else where, info)

    run(body())


def raise_message(sx):
    # a message that evaluates to a non-text is C13's business
    sx.assume(False)


RF_WHERE = ("preconditions", "locals", "name", "namespace", "resource", "template-name", "overlay", "overlay-second", "skipIf",
            "ref-inputs", "ref-return", "ref-locals", "ref-preconditions", "create", "postconditions", "return")
TOKENS = {"name": "apiConfig", "namespace": "apiConfig", "resource": "spec.resource", "template-name": "resourceTemplateRef",
          "overlay": "overlays[0]", "overlay-second": "overlays[1]", "skipIf": "skipIf", "ref-inputs": "inputs",
          "ref-return": "overlays[0]", "ref-locals": "overlays[0]", "ref-preconditions": "overlays[0]", "create": "create.overlay"}


def resource_function(sx, cfg):
    async def body():
        fresh()
        inputs = {}
        where = cfg["where"]
        e, fails = failing(sx, cfg, inputs)
        bool_like = where in ("preconditions", "postconditions", "ref-preconditions", "skipIf")
        text_like = where in ("name", "namespace", "template-name")
        nest = sx.choice("nest", cfg.get("nests", ("plain", "list-of-maps"))) if not bool_like and not text_like else "plain"
        v = NESTS[nest](e)
        if bool_like and not fails:
            v = f"=[{e[1:]}] == [{e[1:]}]"
            if where == "skipIf":
                v = f"=[{e[1:]}] != [{e[1:]}]"
        if text_like and not fails:
            v = f"='x' + string([{e[1:]}].size())"
        apply_doc = {"spec": {"nested": {"e": v}}, "also": "=inputs.text"}
        k = KINDS["ns"]
        base = {"apiVersion": k["apiVersion"], "kind": k["kind"], "spec": {"nested": {"b": 1}, "text": "=inputs.text"}}
        extra = {}
        kw = {}
        ref = None
        assertion = [{"assert": "=true", "skip": {"message": "m"}}, {"assert": v, "depSkip": {"message": "d"}}]
        if where == "preconditions":
            extra["preconditions"] = assertion
        elif where == "locals":
            extra["locals"] = {"l": v}
        elif where == "resource":
            base["spec"]["nested"]["e"] = v
        elif where == "name":
            kw["name"] = v
        elif where == "namespace":
            kw["namespace"] = v
        elif where == "overlay":
            extra["overlays"] = [{"overlay": apply_doc}, {"overlay": {"later": 1}}]
        elif where == "overlay-second":
            extra["overlays"] = [{"overlay": {"first": 1}}, {"overlay": apply_doc}]
        elif where == "skipIf":
            extra["overlays"] = [{"skipIf": v, "overlay": {"first": 1}}]
        elif where == "create":
            kw["create"] = {"overlay": apply_doc}
        elif where == "postconditions":
            extra["postconditions"] = assertion
        elif where == "return":
            kw["ret"] = {"r": v, "a": 1}
        elif where.startswith("ref-"):
            ref = {"return": {"spec": {"r": "=inputs.text"}}}
            part = where[4:]
            provide = {n: f"=inputs.{n}" for n in inputs}
            if part == "inputs":
                provide["more"] = v
            elif part == "return":
                ref = {"return": apply_doc}
            elif part == "locals":
                ref["locals"] = {"l": v}
            else:
                ref["preconditions"] = assertion
            if "maybe" in e and part != "inputs":
                provide["maybe"] = "=inputs.maybe"
            # the named inputs must be provided for the definition to be ready
            if fails and "inputs.nope" in e and part != "inputs":
                provide["nope"] = "=inputs.map.nope"
            extra["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": provide}]
            r = await offer(ValueFunction, "ov", ref)
            if klass(r) != "ok":
                raise AssertionError(f"{ref} {r}")
        if where == "template-name":
            r = await offer(ResourceTemplate, "x1", {"template": {"apiVersion": k["apiVersion"], "kind": k["kind"], "spec": {}}})
            spec = rf_spec(None, resourceTemplateRef={"name": v}, **extra, **kw)
        else:
            spec = rf_spec(base, **extra, **kw)
        live = sx.flag("live") if where not in ("create",) else False
        if where in ("postconditions", "return"):
            live = True
        sx.note(where=where, spec=spec, inputs=inputs, ref=ref)
        rig = Rig(sx, spec, inputs=inputs)
        await rig.prepare()
        if where in ("name", "namespace") and not fails:
            live = False
        if live:
            doc = {"apiVersion": k["apiVersion"], "kind": k["kind"], "spec": {"text": "text", "nested": {"b": 1}},
                   "metadata": {"name": "widget-1", "namespace": "team-a", "uid": "u", "ownerReferences": [dict(OWNER_REF)]}}
            rig.cluster.put("widgets", "team-a", "widget-1", doc)
        r, calls = await rig.step()
        out = r.outcome
        info = lambda: f"{where}: {e} {deepcopy_plain(inputs)} -> {type(out).__name__} {out} calls={[c.verb for c in calls]}"
        sx.observe(klass(out), fails, [c.verb for c in calls])
        if where.startswith("ref-") and part != "inputs" and fails and "inputs.nope" in e:
            judge(sx, out, fails, "overlays[0]", info)
        else:
            judge(sx, out, fails, TOKENS.get(where, where), info)
        for c in calls:
            no_leak(sx, "payload", c.data, info)
        no_leak(sx, "resource-id", r.resource_id, info)
        if fails:
            sx.check(not [c for c in calls if c.mutating], "mutated", info)
        sx.reach(where)

    run(body())


WF_WHERE = ("inputs", "skipIf", "itemIn", "switchOn", "state", "function", "sub-function", "each-function", "case-function", "sub-inputs")


def workflow(sx, cfg):
    async def body():
        fresh()
        inputs = {}
        where = cfg["where"]
        e, fails = failing(sx, cfg, inputs)
        pe = e.replace("inputs.", "parent.")  # expressions of steps see the trigger as `parent`
        dep = sx.flag("dependent")  # behind another step, or not
        root = "=steps.first.parent." if dep else "=parent."
        se = pe.replace("parent.", "steps.first.all.") if dep else pe
        for name in ("echo", "boom"):
            spec = {"return": {"r": "=inputs.text"}}
            if name == "boom":
                spec = {"return": {"a": {"r": e}}}
            r = await offer(ValueFunction, name, spec)
            if klass(r) != "ok":
                raise AssertionError(f"{spec} {r}")
        await offer(ValueFunction, "all", {"return": {"all": "=inputs.all"}})
        everything = "=steps.first.all" if dep else "=parent"
        ref = {"kind": "ValueFunction", "name": "echo"}
        step = {"label": "second", "ref": ref, "inputs": {"text": f"{everything}.text"}, "state": {"done": "=value.r"}}
        boom_inputs = {n: f"{everything}.{n}" for n in inputs}
        nest = "plain"
        if where == "inputs":
            nest = sx.choice("nest", tuple(NESTS))
            step["inputs"]["more"] = renamed(NESTS[nest](e), "steps.first.all." if dep else "parent.")
        elif where == "skipIf":
            step["skipIf"] = se if fails else f"=[{se[1:]}] != [{se[1:]}]"
        elif where == "itemIn":
            step["forEach"] = {"itemIn": se if fails else f"=[{se[1:]}].map(x, 'i')", "inputKey": "item"}
            step["state"] = {"done": "=size(value)"}
        elif where == "switchOn":
            del step["ref"]
            step["refSwitch"] = {"switchOn": se if fails else f"='c' + string([{se[1:]}].size())", "cases": [{"case": "c1", **ref}, {"case": "other", "default": True, **ref}]}
        elif where == "state":
            nest = sx.choice("nest", tuple(NESTS))
            step["state"] = {"done": renamed(NESTS[nest](e), "value."), "z": 1}
            step["ref"] = {"kind": "ValueFunction", "name": "all-flat"}
            step["inputs"] = boom_inputs
            await offer(ValueFunction, "all-flat", {"return": {n: f"=inputs.{n}" for n in inputs}})
        elif where == "function":
            step["ref"] = {"kind": "ValueFunction", "name": "boom"}
            step["inputs"] = boom_inputs
            step["state"] = {"done": "=value.a"}
        elif where == "each-function":
            step["ref"] = {"kind": "ValueFunction", "name": "boom"}
            step["inputs"] = boom_inputs
            step["forEach"] = {"itemIn": "=['p', 'q']", "inputKey": "item"}
            step["state"] = {"done": "=value.map(v, v.a)"}
        elif where == "case-function":
            del step["ref"]
            step["refSwitch"] = {"switchOn": "='c1'", "cases": [{"case": "c1", "kind": "ValueFunction", "name": "boom"}, {"case": "other", "default": True, **ref}]}
            step["inputs"] = boom_inputs
            step["state"] = {"done": "=value.a"}
        else:
            sub_step = {"label": "inner", "ref": {"kind": "ValueFunction", "name": "boom"}, "inputs": {n: f"=parent.{n}" for n in inputs}, "state": {"done": "=value.a"}}
            if where == "sub-inputs":
                sub_step["ref"] = ref
                sub_step["inputs"] = {"text": "=parent.text", "more": {"deep": [pe]}}
                sub_step["state"] = {"done": "=value.r"}
            r = await offer(Workflow, "sub", {"steps": [sub_step]})
            if klass(r) != "ok":
                raise AssertionError(r)
            step["ref"] = {"kind": "Workflow", "name": "sub"}
            step["inputs"] = boom_inputs
            step["state"] = {"done": "=value.done"}
        step["condition"] = {"type": "Second", "name": "the second step"}
        steps = [step, {"label": "third", "ref": ref, "inputs": {"text": "=steps.second.nothing" if False else "=parent.text", "see": "=steps.second"}, "condition": {"type": "Third", "name": "third"}},
                 {"label": "aside", "ref": ref, "inputs": {"text": "=parent.text"}, "state": {"aside": "=value.r"}}]
        if dep:
            steps.insert(0, {"label": "first", "ref": {"kind": "ValueFunction", "name": "all"}, "inputs": {"all": "=parent"}})
        spec = {"steps": steps}
        w = await offer(Workflow, "wf", spec)
        if klass(w) != "ok" or klass(w.steps_ready) != "ok":
            raise AssertionError(f"{spec} {w}")
        sx.note(where=where, spec=spec, inputs=inputs)
        res = await aguarded(sx, "crash", reconcile_workflow(
            api=Cluster(), workflow_key="wf", owner=(OWNER_NS, OWNER_REF), trigger=cel(inputs), workflow=w))
        info = lambda: f"{where}: {se} {deepcopy_plain(inputs)} -> {res}"
        no_leak(sx, "result", res.result, info)
        no_leak(sx, "state", res.state, info)
        no_leak(sx, "state-errors", res.state_errors, info)
        no_leak(sx, "resource-ids", res.resource_ids, info)
        no_leak(sx, "conditions", [tuple(c.values()) if isinstance(c, dict) else tuple(c) for c in res.conditions], info)
        sx.observe(klass(res.result), fails, convert(res.state), sorted(res.state_errors))
        reasons = {c["type"]: c["reason"] for c in res.conditions}
        sx.check(strict_equal(res.state.get("aside"), "text"), "other-step-lost", info)
        if not fails:
            sx.check(klass(res.result) == "ok", "failed-anyway", info)
            sx.check("done" in res.state and not res.state_errors, "state-lost", info)
            sx.reach("evaluated")
        elif where == "state":
            sx.check("second" in res.state_errors, "state-error-unreported", info)
            sx.check("done" not in res.state and "z" not in res.state, "state-of-failure", info)
            sx.reach("failed")
        else:
            judge(sx, res.result, True, where if where in ("inputs", "skipIf", "itemIn", "switchOn") else "return" if "function" in where else "inputs", info)
            sx.check("done" not in res.state, "state-of-failure", info)
            sx.check(reasons.get("Second") == "Failure", "condition", info)
            sx.check(reasons.get("Third") == "DepSkip", "dependent-ran", info)
        sx.reach(where)

    run(body())


def renamed(v, to):
    if isinstance(v, dict):
        return {k: renamed(x, to) for k, x in v.items()}
    if isinstance(v, list):
        return [renamed(x, to) for x in v]
    return v.replace("inputs.", to) if isinstance(v, str) else v


def convert(v):
    if isinstance(v, dict):
        return {convert(k): convert(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [convert(x) for x in v]
    return v


HARNESSES = [
    Harness("value", value_function,
            quick=[dict(wraps=PLAIN, nests=("plain", "map")), dict(atoms=SHORT), dict(atoms=("1/0",), symbolic=SYMBOLIC + ("split", "separator", "name"))],
            thorough=[dict(), dict(atoms=("1/0",), symbolic=SYMBOLIC + ("split", "separator", "name"))],
            reach=("failed", "evaluated"),
            bounds=f"{len(ATOMS)} failing expressions in {len(WRAPS)} containing expressions at {len(NESTS)} YAML positions (quick: pairwise subsets); "
                   "failures that depend on symbolic integers, texts and presence"),
    Harness("resource", resource_function,
            quick=[dict(where=w, atoms=SHORT, wraps=PLAIN, symbolic=SYMBOLIC) for w in RF_WHERE],
            thorough=[dict(where=w, symbolic=SYMBOLIC, nests=tuple(NESTS)) for w in RF_WHERE],
            reach=("failed", "evaluated") + RF_WHERE,
            bounds="every expression site of a ResourceFunction, its overlay functions and template reference; object present or absent"),
    Harness("workflow", workflow,
            quick=[dict(where=w, atoms=SHORT, wraps=PLAIN, symbolic=SYMBOLIC) for w in WF_WHERE],
            thorough=[dict(where=w, symbolic=SYMBOLIC) for w in WF_WHERE],
            reach=("failed", "evaluated") + WF_WHERE,
            bounds="every expression site of a step (with and without a dependency) and failing functions as step, iteration, case and sub-workflow"),
]
