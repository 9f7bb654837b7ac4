"""C03: combining outcomes is severity-maximal, order-insensitive, lossless."""
from sx.main import Harness
from sx.core import deepcopy_plain, strict_equal

from checks.wflib import *

MARK = ("alpha!", "bravo!", "gamma!", "delta!", "omega!", "sigma!")


def _outcome(sx, i, wrapped):
    c = sx.choice(f"class{i}", CLASSES)
    # a message may be missing, empty, or text
    if c == "ok":
        kind = sx.choice(f"value{i}", ("int", "null", "false", "list", "nested"))
        v = {
            "int": lambda: sx.int(f"v{i}"),
            "null": lambda: None,
            "false": lambda: False,
            "list": lambda: [],
            "nested": lambda: [sx.int(f"v{i}a"), {"k": sx.int(f"v{i}b")}],
        }[kind]()
        loc = sx.choice(f"loc{i}", (None, f"loc-{i}")) if wrapped else None
        return c, v, (kr.Ok(v, location=loc) if wrapped else v), None
    msg = sx.choice(f"msg{i}", (MARK[i], None, ""))
    loc = sx.choice(f"loc{i}", (None, f"loc-{i}")) if c in ("retry", "permfail") else None
    if c == "depskip":
        return c, msg, kr.DepSkip(msg, loc), None
    if c == "skip":
        return c, msg, kr.Skip(msg, loc), None
    if c == "permfail":
        return c, msg, kr.PermFail(msg, loc), None
    d = sx.int(f"delay{i}", 0, 10**9)
    return c, msg, kr.Retry(delay=d, message=msg, location=loc), d


def _verify(sx, items, got, wrapped, key):
    want = max((it[0] for it in items), key=SEVERITY.__getitem__)
    gc = klass(got)
    sx.check(gc == want, f"{key}:class", lambda: f"{[it[0] for it in items]} -> {got}")
    if want == "ok":
        data = got.data if wrapped else got
        if wrapped:
            sx.check(isinstance(got, kr.Ok), f"{key}:class", lambda: repr(got))
        vals = [it[1] for it in items if it[0] == "ok"]
        sx.check(
            isinstance(data, list) and strict_equal(data, vals), f"{key}:values",
            lambda: f"{deepcopy_plain(vals)} -> {deepcopy_plain(data)}",
        )
    if want in ("retry", "permfail"):
        for c, msg, _, _ in items:
            if c == want and msg:
                sx.check(
                    msg in (got.message or ""), f"{key}:message-lost",
                    lambda: f"{msg!r} not in {got.message!r}",
                )
    if want == "retry":
        ds = [it[3] for it in items if it[0] == "retry"]
        sx.check(all(got.delay >= d for d in ds), f"{key}:delay", lambda: f"{deepcopy_plain(ds)} -> {got.delay}")
        sx.check(any(got.delay == d for d in ds), f"{key}:delay", lambda: f"{deepcopy_plain(ds)} -> {got.delay}")
    sx.reach(want)


def fold(sx, cfg):
    n = cfg["n"]
    wrapped = cfg["wrapped"]
    f = kr.combine if wrapped else kr.unwrapped_combine
    items = [_outcome(sx, i, wrapped) for i in range(n)]
    args = [it[2] for it in items]
    before = [dict(vars(a)) if hasattr(a, "__dict__") else None for a in args]
    got = guarded(sx, "raises", f, args)
    sx.note(classes=[it[0] for it in items], result=str(got))
    sx.observe(klass(got))
    _verify(sx, items, got, wrapped, "combine")
    # combining leaves its arguments alone
    after = [dict(vars(a)) if hasattr(a, "__dict__") else None for a in args]
    for b, a in zip(before, after):
        if b is not None:
            sx.check(b.keys() == a.keys() and all(a[k] is b[k] for k in b), "combine:mutates-argument")


def permuted(sx, cfg):
    """Class, messages and delay do not depend on the order (values follow it)."""
    n = cfg["n"]
    items = [_outcome(sx, i, True) for i in range(n)]
    order = list(range(n))
    perm = []
    for i in range(n):
        perm.append(order.pop(sx.choice(f"perm{i}", tuple(range(len(order))))))
    sx.assume(perm != sorted(perm))
    a = guarded(sx, "raises", kr.combine, [it[2] for it in items])
    pitems = [items[p] for p in perm]
    b = guarded(sx, "raises", kr.combine, [it[2] for it in pitems])
    sx.observe(klass(a), klass(b))
    sx.check(klass(a) == klass(b), "order:class", lambda: f"{a} vs {b}")
    _verify(sx, pitems, b, True, "order")
    if klass(a) == "retry":
        sx.check(a.delay == b.delay, "order:delay", lambda: f"{a} vs {b}")


def nested(sx, cfg):
    """Ok values that are themselves results of combine stay one value each."""
    a = [_outcome(sx, i, True) for i in range(2)]
    b = [_outcome(sx, 2 + i, True) for i in range(1)]
    first = guarded(sx, "raises", kr.combine, [x[2] for x in a])
    items = [(klass(first), getattr(first, "data", getattr(first, "message", None)), first, getattr(first, "delay", None))] + b
    if sx.flag("swap"):
        items.reverse()
    got = guarded(sx, "raises", kr.combine, [x[2] for x in items])
    sx.observe(klass(got))
    _verify(sx, items, got, True, "nested")


# ------------------------------------------------------------------ through workflows
MODES = {1: ("skip", None), 2: ("depskip", None), 3: ("retry", 5), 4: ("retry", 90), 5: ("permfail", None)}
TOLD = {"skip": "skips", "depskip": "waits", "retry": "retries", "permfail": "fails"}


def logic(item=False):
    mode, tag = ("inputs.item.m", "inputs.item.tag") if item else ("inputs.m", "inputs.tag")
    return {
        "preconditions": [
            {"assert": f"={mode} != {n}", {"depskip": "depSkip", "permfail": "permFail"}.get(c, c):
                {"message": f"={tag} + ' {TOLD[c]}'", **({"delay": d} if d is not None else {})}}
            for n, (c, d) in MODES.items()
        ],
        "return": {"tag": f"={tag}", "m": f"={mode}"},
    }


def leaf_outcome(mode, tag):
    """-> (class, message, delay, value), branching like the Logic does"""
    for n, (c, d) in MODES.items():
        if mode == n:
            return c, f"{tag} {TOLD[c]}", d, None
    return "ok", None, None, {"tag": tag, "m": mode}


def workflow(sx, cfg):
    """The outcome of a Workflow is the combination of its steps' outcomes."""

    async def body():
        fresh()
        await offer_ok(ValueFunction, "plain", logic())
        await offer_ok(ValueFunction, "item", logic(True))
        trigger, steps, plan = {"items": []}, [], []

        def mode(tag):
            m = trigger[tag] = sx.int(tag, 0, 99)
            return m

        def step(label, ref, kind="ValueFunction", **kw):
            s = {"label": label, "ref": {"kind": kind, "name": ref}, **kw}
            if sx.choice(f"{label}-told", cfg.get("told", (True, False))):
                s["condition"] = {"type": label.capitalize(), "name": label}
                s["state"] = {label: "=value"}
            steps.append(s)
            return s

        for k, what in enumerate(sx.choice("steps", cfg["shapes"])):
            tag = f"step{k}"
            if what == "plain":
                step(tag, "plain", inputs={"m": f"=parent.{tag}", "tag": tag})
                plan.append(("plain", [(mode(tag), tag)]))
            elif what == "needy":
                step(tag, "plain", inputs={"m": f"=parent.{tag}", "tag": tag, "after": f"=steps.step{k - 1}"})
                plan.append(("needy", [(mode(tag), tag)]))
            elif what in ("each", "each-switch"):
                items = [(mode(f"{tag}i{j}"), f"{tag}i{j}") for j in range(cfg.get("items", 2))]
                trigger[tag] = [{"m": m, "tag": t} for m, t in items]
                s = step(tag, "item", forEach={"itemIn": f"=parent.{tag}", "inputKey": "item"})
                if what == "each-switch":
                    del s["ref"]
                    s["refSwitch"] = {"switchOn": "=inputs.item.tag", "cases": [
                        {"case": items[0][1], "kind": "ValueFunction", "name": "item"}, {"case": "x", "kind": "ValueFunction", "name": "item", "default": True}]}
                plan.append(("each", items))
            elif what == "sub":
                items = [(mode(f"{tag}i{j}"), f"{tag}i{j}") for j in range(2)]
                inner = [{"label": t, "ref": {"kind": "ValueFunction", "name": "plain"}, "inputs": {"m": f"=parent.{t}", "tag": t}, "state": {t: "=value"}} for _, t in items]
                await offer_ok(Workflow, "sub", {"steps": inner})
                step(tag, "sub", "Workflow", inputs={t: f"=parent.{t}" for _, t in items})
                plan.append(("sub", items))
        spec = {"steps": steps}
        w = await offer_ok(Workflow, "wf", spec)
        if klass(w.steps_ready) != "ok":
            raise AssertionError(f"{spec}: {w.steps_ready}")
        sx.note(spec=spec, trigger=trigger)
        res = await aguarded(sx, "crash", reconcile_workflow(
            api=Cluster(), workflow_key="wf", owner=(OWNER_NS, OWNER_REF), trigger=cel(trigger), workflow=w))

        results = []  # (class, value or None, errors [(class, message, delay)])
        for what, items in plan:
            if what == "needy" and results[-1][0] != "ok":
                results.append(("depskip", None, []))
                continue
            outs = [leaf_outcome(m, t) for m, t in items]
            errors = [o[:3] for o in outs if o[0] in ("retry", "permfail")]
            if what == "each":
                c = max((e[0] for e in errors), key=SEVERITY.get) if errors else "ok"
                value = [o[3] for o in outs]
            else:
                c = max((o[0] for o in outs), key=SEVERITY.get)
                value = outs[0][3] if what != "sub" else {t: o[3] for (_, t), o in zip(items, outs) if o[0] == "ok"}
            results.append((c, value if c == "ok" else None, [e for e in errors if e[0] == c]))
        want = max((r[0] for r in results), key=SEVERITY.get)
        got = res.result
        info = lambda: f"steps={spec['steps']} trigger={deepcopy_plain(trigger)} want {want}, got {klass(got)} {str(got)[:400]}"
        sx.check(klass(got) == want, "workflow:class", info)
        told = [e for r in results for e in r[2] if e[0] == want]
        last = [c for c in res.conditions if c["type"] == "Ready"]
        sx.check(len(last) == 1 and last[0]["reason"] == REASON[want], "workflow:condition", lambda: f"{last} {info()}")
        for c, msg, _ in told:
            sx.check(msg in (got.message or ""), "workflow:message-lost", lambda: f"{msg}: {info()}")
            sx.check(msg in last[0]["message"], "workflow:message-untold", lambda: f"{msg}: {last} {info()}")
        if want == "retry":
            sx.check(got.delay == max(d for _, _, d in told), "workflow:delay", info)
        if want == "ok":
            values = [r[1] for r in results if r[0] == "ok"]
            mine = plain(got)
            fit = isinstance(mine, list) and len(mine) == len(values)
            sx.check(fit, "workflow:values", info)
            for v, (what, _), m in zip(values, [p for p, r in zip(plan, results) if r[0] == "ok"], mine):
                if what == "each":
                    # skipped iterations are told as text
                    sx.check(isinstance(m, list) and len(m) == len(v), "workflow:values", info)
                    v = [y if x is None and isinstance(y, str) else x for x, y in zip(v, m)]
                sx.check(strict_equal(m, v), "workflow:values", info)
        sx.observe(klass(got))
        sx.reach(want)

    run(body())


HARNESSES = [
    Harness("fold", fold,
            quick=[dict(n=n, wrapped=w) for n in (1, 2, 3) for w in (True, False)],
            thorough=[dict(n=n, wrapped=w) for n in (1, 2, 3, 4, 5) for w in (True, False)],
            reach=CLASSES,
            bounds="1..3 outcomes (thorough ..5), any class per position, delays 0..10^9, values/messages/locations optional"),
    Harness("permuted", permuted, quick=[dict(n=2), dict(n=3)], thorough=[dict(n=2), dict(n=3), dict(n=4)],
            reach=CLASSES, bounds="2..3 outcomes (thorough ..4), every permutation"),
    Harness("nested", nested, quick=[{}], reach=CLASSES, bounds="combine of a combined outcome, 2+1"),
    Harness("workflow", workflow,
            quick=[dict(shapes=(("plain", "plain"), ("plain", "needy"))), dict(shapes=(("plain", "plain", "plain"),), told=(True,)),
                   dict(shapes=(("each",), ("plain", "each"), ("each", "plain"), ("sub",), ("plain", "sub"), ("sub", "plain"))),
                   dict(shapes=(("each-switch",),)), dict(shapes=(("each",),), items=3, told=(False,))],
            thorough=[dict(shapes=(("plain", "plain", "plain"), ("plain", "plain", "needy"), ("plain", "needy", "needy"))), dict(shapes=(("plain",) * 4,), told=(True,)),
                      dict(shapes=(("each",), ("plain", "each"), ("each", "plain"), ("each", "each"), ("sub", "each"), ("each", "sub"))),
                      dict(shapes=(("each-switch",), ("each-switch", "sub"))), dict(shapes=(("each",), ("plain", "each")), items=3, told=(True,))],
            reach=CLASSES,
            bounds="Workflows of 1..3 (thorough 4) steps - plain, dependent, forEach of 2..3 items, refSwitch in forEach, sub-workflow of 2 - every class per "
                   "invocation, two Retry delays, with and without step conditions and state"),
]
