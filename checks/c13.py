"""C13: the first false assertion decides; unevaluable ones fail safe."""
from sx.main import Harness

from checks.rflib import *

KINDS5 = ("skip", "depSkip", "retry", "permFail", "ok")
TRUE, FALSE, BAD = "true", "false", "bad"


def assertion(sx, i, inputs, cfg):
    """-> (spec entry, truth TRUE/FALSE/BAD, outcome tuple, message state)."""
    kind = sx.choice(f"a{i}-kind", cfg.get("kinds", KINDS5))
    how = sx.choice(f"a{i}-how", cfg.get("hows", ("bool", "compare", "text", "missing", "null")))
    truth = BAD
    if how == "bool":
        v = sx.flag(f"a{i}")
        inputs[f"b{i}"] = v
        expr, truth = f"=inputs.b{i}", TRUE if v else FALSE
    elif how == "compare":
        v = sx.int(f"a{i}-n")
        inputs[f"n{i}"] = v
        expr, truth = f"=inputs.n{i} > 3", TRUE if v > 3 else FALSE
    elif how == "equal":
        a, b = sx.text(f"a{i}-x"), sx.text(f"a{i}-y")
        inputs[f"x{i}"], inputs[f"y{i}"] = a, b
        expr, truth = f"=inputs.x{i} == inputs.y{i}", TRUE if strict_equal(a, b) else FALSE
    elif how == "has":
        v = sx.flag(f"a{i}-has")
        if v:
            inputs[f"h{i}"] = 1
        expr, truth = f"=has(inputs.h{i})", TRUE if v else FALSE
    elif how == "divide":
        v = sx.int(f"a{i}-d")
        inputs[f"d{i}"] = v
        expr = f"=10 / inputs.d{i} == 5"
        truth = BAD if v == 0 else (TRUE if v == 2 else FALSE)
    elif how == "missing":
        expr = f"=inputs.nope{i}"
    elif how == "function":
        expr = "=split_first('a', '')"
    else:
        inputs[f"w{i}"] = sx.leaf_of(f"a{i}-w", {"text": "text", "null": "null", "int": "int", "map": "map", "list": "list", "empty": "empty", "float": "float"}[how])
        expr = f"=inputs.w{i}"
    entry = {"assert": expr}
    if kind == "ok":
        entry["ok"] = {}
        return entry, truth, ("ok",), "fine"
    mhow = sx.choice(f"a{i}-message", cfg.get("messages", ("literal", "computed", "broken")))
    delay = None
    if mhow == "literal":
        msg = text = f"message {i}"
    elif mhow == "computed":
        text = sx.text(f"a{i}-m")
        inputs[f"m{i}"] = text
        msg = f"=inputs.m{i}"
    else:
        msg, text = f"=inputs.nomsg{i}", None
    body = {"message": msg}
    if kind == "retry":
        body["delay"] = delay = 5 + i
    entry[kind] = body
    return entry, truth, (kind.lower(), text, delay), "broken" if mhow == "broken" else "fine"


def verdict(items):
    """-> (wanted, may also fail safe).  wanted: "failsafe" | outcome | None
    (continue).  A message nobody needs may or may not be evaluated."""
    if any(t is BAD for _, t, _, _ in items):
        return "failsafe", False
    vague = any(m == "broken" for *_, m in items)
    for _, t, o, m in items:
        if t is FALSE:
            if m == "broken":
                return "failsafe", False
            return (None if o[0] == "ok" else o), vague
    return None, vague


def check_outcome(sx, outcome, want, info):
    k = klass(outcome)
    if want == "failsafe":
        sx.check(k == "permfail", "fails-safe", info)
        sx.check(bool(outcome.message), "message", info)
        sx.reach("failsafe")
        return
    sx.check(k == want[0], "outcome-class", info)
    sx.check(strict_equal(outcome.message, want[1]), "outcome-message", info)
    if want[0] == "retry":
        sx.check(outcome.delay == want[2], "outcome-delay", info)
    sx.reach(f"first-{want[0]}")


def value_function(sx, cfg):
    async def body():
        fresh()
        inputs = {"ok": "yes"}
        items = [assertion(sx, i, inputs, cfg) for i in range(cfg["n"])]
        trap = sx.flag("trap")
        spec = {
            "preconditions": [s for s, *_ in items],
            "locals": {"l": "=inputs.nobody"} if trap else {"l": "=inputs.ok"},
            "return": {"r": "=locals.l"},
        }
        f = await offer(ValueFunction, "vf", spec)
        if klass(f) != "ok":
            raise AssertionError(f)
        want, vague = verdict(items)
        sx.note(spec=spec, inputs=inputs)
        out = await aguarded(sx, "crash", reconcile_value_function("loc", f, cel(inputs)))
        info = lambda: f"preconditions={spec['preconditions']} inputs={deepcopy_plain(inputs)} want={deepcopy_plain(want)} -> {type(out).__name__} {out}"
        sx.observe(klass(out), want)
        if vague and klass(out) == "permfail" and out.message not in ("message 0", "message 1", "message 2"):
            return
        if want is None:
            if trap:
                sx.check(klass(out) == "permfail", "body-evaluated", info)
            else:
                sx.check(klass(out) == "ok" and strict_equal(out, {"r": "yes"}), "continues", info)
            sx.reach("continues")
        else:
            check_outcome(sx, out, want, info)

    run(body())


def resource_function(sx, cfg):
    async def body():
        fresh()
        where = cfg["where"]
        inputs = {"ok": "yes"}
        items = [assertion(sx, i, inputs, cfg) for i in range(cfg["n"])]
        trap = sx.flag("trap")
        extra = {f"{where}": [s for s, *_ in items]}
        if where == "preconditions" and trap:
            extra["locals"] = {"l": "=inputs.nobody"}
        ret = {"r": "=inputs.nobody"} if trap and where == "postconditions" else {"r": "=resource.spec.v"}
        spec = rf_spec({"spec": {"v": "=inputs.ok"}}, update="patch", ret=ret, **extra)
        rig = Rig(sx, spec, inputs=inputs)
        await rig.prepare()
        if where == "postconditions":
            live = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "spec": {"v": "yes"},
                    "metadata": {"name": "widget-1", "namespace": "team-a", "uid": "u", "ownerReferences": [dict(OWNER_REF)]}}
            rig.cluster.put("widgets", "team-a", "widget-1", live)
        want, vague = verdict(items)
        sx.note(where=where, spec=spec, inputs=inputs)
        r, calls = await rig.step()
        out = r.outcome
        info = lambda: f"{where}={extra[where]} inputs={deepcopy_plain(inputs)} want={deepcopy_plain(want)} -> {out} calls={[c.verb for c in calls]}"
        sx.observe(klass(out), want, [c.verb for c in calls])
        if vague and klass(out) == "permfail" and not (calls and where == "preconditions"):
            return
        if want is not None:
            check_outcome(sx, out, want, info)
            if where == "preconditions":
                sx.check(not calls, "cluster-touched", info)
            return
        sx.reach("continues")
        if where == "preconditions":
            if trap:
                sx.check(klass(out) == "permfail", "body-evaluated", info)
            else:
                sx.check(klass(out) == "retry" and [c.verb for c in calls if c.mutating] == ["POST"], "continues", info)
        elif trap:
            sx.check(klass(out) == "permfail", "body-evaluated", info)
        else:
            sx.check(klass(out) == "ok" and strict_equal(out, {"r": "yes"}), "continues", info)

    run(body())


REACH = ("failsafe", "first-skip", "first-depskip", "first-retry", "first-permfail", "continues")
FULL = ("bool", "compare", "equal", "has", "divide", "missing", "function", "text", "empty", "int", "float", "null", "map", "list")
PURE = ("bool", "compare")

HARNESSES = [
    Harness("value", value_function,
            quick=[dict(n=1, hows=FULL), dict(n=2), dict(n=3, hows=("bool",), messages=("literal",)), dict(n=3, hows=("bool", "missing"), messages=("literal",), kinds=("skip", "retry", "ok"))],
            thorough=[dict(n=1, hows=FULL), dict(n=2, hows=FULL, messages=("literal", "broken")), dict(n=3, hows=("bool", "divide", "text"), messages=("computed",)),
                      dict(n=4, hows=("bool",), messages=("literal",))],
            reach=REACH, bounds="1..3 (thorough 4) assertions; symbolic booleans, integer and text comparisons, division; non-boolean and unevaluable assertions; unevaluable messages"),
    Harness("resource", resource_function,
            quick=[dict(n=n, where=w, **x) for w in ("preconditions", "postconditions") for n, x in (
                (1, dict(hows=FULL)), (2, dict(hows=("bool", "text"), messages=("computed",))),
                (3, dict(hows=("bool",), messages=("literal",), kinds=("depSkip", "permFail", "ok"))))],
            thorough=[dict(n=n, where=w, **x) for w in ("preconditions", "postconditions") for n, x in (
                (1, dict(hows=FULL)), (2, dict(hows=FULL, messages=("computed",))), (3, dict(hows=("bool", "missing"), messages=("literal", "broken"))))],
            reach=REACH, bounds="same, as pre- and postconditions of a ResourceFunction"),
]
