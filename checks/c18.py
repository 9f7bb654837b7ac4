"""C18: cases chain exactly through the passing non-variant ones."""
from sx.main import Harness

from checks.ftlib import *

# ---------------------------------------------------------- functions under test

TEMPLATES = {
    "tpl": {"apiVersion": API["apiVersion"], "kind": API["kind"], "metadata": {"labels": {"t": "one"}}, "spec": {"a": "from tpl", "m": {"x": "t", "deep": {"y": "t"}}}},
    "tpl2": {"apiVersion": API["apiVersion"], "kind": API["kind"], "metadata": {"labels": {"t": "two"}}, "spec": {"a": "from tpl2", "m": {"x": "t2", "deep": {"y": "t2"}}}},
}
ECHO = {"i": "=inputs", "r": "=resource"}
FUNCTIONS = {
    "vf": {"preconditions": [{"assert": "=inputs.a != 'stop'", "skip": {"message": "=inputs.a"}}], "locals": {"l": "=inputs.m"}, "return": {"i": "=inputs", "l": "=locals.l", "spec": {"e": "=inputs.a"}}},
    "patch": rf(resource={"spec": {"a": "=inputs.a", "m": "=inputs.m"}}, ret=ECHO),
    "recreate": rf(resource={"spec": {"a": "=inputs.a", "m": {"x": "=inputs.m.x"}}}, update="recreate", create={"overlay": {"spec": {"once": "=inputs.a"}}}, ret=ECHO),
    "template": rf(resource=None, resourceTemplateRef={"name": "=inputs.t"}, ret=ECHO,
                   overlays=[{"overlay": {"spec": {"m": {"deep": {"y": "=inputs.a"}}}}}, {"overlay": {"metadata": {"labels": {"o": "=resource.spec.m.deep.y"}}}, "skipIf": "=inputs.a == 'plain'"}]),
    "overlayref": rf(resource={"spec": {"a": "=inputs.a", "m": {"x": "x", "deep": {"y": "y"}}}}, ret=ECHO,
                     overlays=[{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"v": "=inputs.m"}}]),
    "guarded": rf(resource={"spec": {"a": "=inputs.a"}}, ret=ECHO, update="never", preconditions=[{"assert": "=inputs.a != 'stop'", "permFail": {"message": "=inputs.a"}}],
                  postconditions=[{"assert": "=resource.spec.m.x == inputs.m.x", "retry": {"message": "=inputs.a", "delay": 5}}]),
}

# -------------------------------------------------------------------- the model


def merged(base, over):
    """Maps merge; anything else is replaced."""
    out = dict(base)
    for k, v in over.items():
        out[k] = merged(out[k], v) if isinstance(v, dict) and isinstance(out.get(k), dict) else v
    return out


SETUPS = ("none", "a", "nested", "new", "current", "overlay", "deep overlay", "flat overlay", "both")


def setup(sx, tag, how, i):
    """What a case sets up: (inputOverrides, currentResource, overlayResource)."""
    if how == "none":
        return None, None, None
    if how == "a":
        return {"a": sx.text(f"{tag}a")}, None, None
    if how == "stop":
        return {"a": "stop"}, None, None
    if how == "nested":
        return {"m": {"x": sx.int(f"{tag}x", 0, 9), "z": {"w": [i]}}}, None, None
    if how == "new":
        return {f"n{i}": {"k": i}, "t": "tpl2"}, None, None
    if how == "current":
        return None, live({"a": sx.text(f"{tag}la"), "m": {"x": sx.int(f"{tag}lx", 0, 9), "deep": {"y": "c"}}}), None
    if how in ("overlay", "flat overlay"):
        return None, None, {"spec": {"m": sx.int(f"{tag}om", 0, 9)}} if how == "flat overlay" else {"spec": {"a": f"o{i}", "m": {"x": sx.int(f"{tag}ox", 0, 9)}}}
    if how == "deep overlay":
        return None, None, {"spec": {"m": {"x": 50 + i}}, "status": {"ready": {"n": i}}}
    return {"a": sx.text(f"{tag}a")}, None, {"spec": {"m": {"x": 77}}}


def after(resource, t):
    """The state a case leaves behind."""
    if t.deleted:
        return None
    if t.sent is not None:
        return {**(resource or {}), **t.sent}
    return resource


def describe(sx, tag, t, state, free, i):
    """An assertion that holds for what the function did."""
    cls = klass(t.outcome)
    kinds = ["expectOutcome"]
    if cls == "ok":
        kinds.append("expectReturn")
    if t.sent is not None and not set(state or {}) - set(t.sent):  # else: see C19's finding
        kinds.append("expectResource")
    if t.deleted:
        kinds.append("expectDelete")
    kind = sx.choice(f"{tag}.assert", kinds) if free else kinds[i % len(kinds)]
    if kind == "expectReturn":
        return {kind: plain(t.outcome)}
    if kind == "expectResource":
        return {kind: bare(t.sent)}
    if kind == "expectDelete":
        return {kind: True}
    name = {"ok": "ok", "retry": "retry", "skip": "skip", "permfail": "permFail", "depskip": "depSkip"}[cls]
    say = {"ok": {}, "retry": {"message": "", "delay": 0}}.get(name, {"message": ""})
    return {kind: {name: say}}


WRONG = {"expectOutcome": {"depSkip": {"message": "no such thing"}}}

BASE_INPUTS = {"a": "base", "m": {"x": 3, "keep": [1, {"deep": True}]}, "t": "tpl"}


async def chain(sx, fut, plan, inputs, resource, free=False):
    """Build the cases of `plan` [(mode, how)], with the verdict and outcome each
    must have -> (cases, expectations)."""
    f = await make(sx, fut, FUNCTIONS[fut])
    cases, want = [], []
    for i, (mode, how) in enumerate(plan):
        tag = f"c{i}"
        override, current, overlay = setup(sx, tag, how, i)
        case = {}
        if override is not None:
            case["inputOverrides"] = override
        if current is not None:
            case["currentResource"] = current
        if overlay is not None:
            case["overlayResource"] = overlay
        if mode == "skip":
            case.update(WRONG, skip=True)
            cases.append(case)
            want.append((True, None))
            continue
        if overlay is not None and not resource:
            raise PathEnd()  # a setup error, by design
        now = merged(inputs, override) if override else inputs
        state = current or (merged(resource, overlay) if overlay else resource)
        t = await truth(sx, f, now, state)
        case.update(WRONG if mode in ("fail", "variant fail") else describe(sx, tag, t, state, free, i))
        if mode.startswith("variant"):
            case["variant"] = True
        cases.append(case)
        want.append((mode not in ("fail", "variant fail"), t))
        if mode == "fail":
            cases.append({"variant": True, **WRONG})
            break
        if not mode.startswith("variant"):
            inputs, resource = now, after(state, t)
            sx.reach(f"then {klass(t.outcome)}")
    return f, cases, want


def judge(sx, results, want, info):
    for k, (passes, t) in enumerate(want):
        sx.check(len(results) > k, "case-not-run", lambda: f"case {k} {info()}")
        r = results[k]
        sx.check(bool(r.test_pass) == passes, "verdict-differs", lambda: f"case {k} passes={r.test_pass} ({r.message} {deepcopy_plain(r.differences)}) {info()}")
        if t is None:
            continue
        if klass(t.outcome) == "ok":
            sx.check(klass(r.outcome) == "ok" and strict_equal(plain(r.outcome), plain(t.outcome)), "result-differs", lambda: f"case {k} returned {deepcopy_plain(r.outcome)} {info()}")
        else:
            sx.check(klass(r.outcome) == klass(t.outcome), "class-differs", lambda: f"case {k}: {r.outcome} {info()}")
            sx.check(said(r.outcome.message) == said(t.outcome.message), "message-differs", lambda: f"case {k}: {r.outcome.message} instead of {t.outcome.message} {info()}")


def snapshot(test):
    return copy.deepcopy((test.inputs, test.initial_resource, [(c.input_overrides, c.current_resource, c.assertion, c.variant, c.skip, c.label) for c in test.test_cases]))


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, kr.Outcome if isinstance(getattr(kr, "Outcome", None), type) else ()):
        return klass(a) == klass(b)
    if hasattr(a, "message") and hasattr(b, "message"):
        return klass(a) == klass(b) and said(a.message) == said(b.message)
    return strict_equal(plain(a), plain(b))


def sequences(sx, cfg):
    """Every sequence of cases, against the model."""

    async def body():
        fresh()
        fut = cfg["fut"]
        for name, tpl in TEMPLATES.items():
            await offer(ResourceTemplate, name, {"template": tpl})
        await offer(ValueFunction, "ov", {"return": {"spec": {"m": {"x": "=inputs.v.x", "deep": {"q": "=inputs.v.x"}}}}})
        base = {**BASE_INPUTS, "a": sx.text("a0")} if cfg.get("base") else BASE_INPUTS
        resource = None
        if sx.choice("initial", ("absent", "present") if cfg.get("both") else (cfg.get("initial", "absent"),)) == "present":
            resource = live({"a": sx.text("live"), "m": {"x": sx.int("live.x", 0, 9), "deep": {"y": "ly"}}})
        plan = cfg["plan"](sx) if callable(cfg["plan"]) else PLANS[cfg["plan"]](sx, cfg)
        f, cases, want = await chain(sx, fut, plan, base, resource, cfg.get("free"))
        shown = deepcopy_plain(dict(resource=resource, cases=cases))
        info = lambda: f"{fut} plan={plan} {shown!r}"[:2500]
        test = await prepare(fut, base, resource, cases)
        before = snapshot(test)
        tplbefore = copy.deepcopy([cache.get_resource_from_cache(resource_class=ResourceTemplate, cache_key=n) for n in TEMPLATES])
        res = await execute(sx, test, info)
        sx.observe([bool(r.test_pass) for r in res.test_results], [klass(r.outcome) for r in res.test_results])
        judge(sx, res.test_results, want, info)
        sx.check(same(snapshot(test), before), "fixtures-modified", info)
        again = await execute(sx, test, info)
        judge(sx, again.test_results, want, lambda: f"second run {info()}")
        tplafter = [cache.get_resource_from_cache(resource_class=ResourceTemplate, cache_key=n) for n in TEMPLATES]
        for x, y in zip(tplbefore, tplafter):
            sx.check(strict_equal(plain(x.template), plain(y.template)) and strict_equal(plain(x.context), plain(y.context)), "template-modified", info)
        # the function itself still does the same
        t0 = await truth(sx, f, base, resource)
        t1 = await truth(sx, await make(sx, fut, FUNCTIONS[fut]), base, resource)
        sx.check(same(t0.outcome, t1.outcome) and strict_equal(t0.sent, t1.sent) and t0.deleted == t1.deleted, "function-modified", info)
        for mode, how in plan:
            sx.reach(mode)
            sx.reach(how)

    run(body())


MODES = ("plain", "variant", "variant fail", "skip", "fail")


def every(sx, cfg):
    """n cases, any mode and setup each (the last is always an observer)."""
    n = cfg["n"]
    hows = cfg.get("setups", SETUPS)
    plan = []
    for i in range(n):
        last = i and i == n - 1
        mode = sx.choice(f"mode{i}", cfg.get("last modes", cfg.get("modes", MODES)) if last else cfg.get("modes", MODES))
        plan.append((mode, "none" if mode == "skip" and not cfg.get("free") else sx.choice(f"how{i}", cfg.get("last", hows) if last else hows)))
        if mode == "fail":
            return plan
    return plan + [("plain", "none")]


def long(sx, cfg):
    """20 cases, two of them special."""
    n = cfg.get("n", 20)
    i = sx.choice("first", range(0, n - 1))
    j = sx.choice("second", range(i + 1, min(n, i + cfg.get("apart", 20))))
    plan = [("plain", "none")] * n
    plan = [("variant", "new") if k % 3 == 2 else p for k, p in enumerate(plan)]
    plan[i] = (sx.choice("mode i", ("plain", "variant", "skip")), sx.choice("how i", cfg["hows"]))
    plan[j] = (sx.choice("mode j", ("plain", "variant fail")), sx.choice("how j", cfg["hows"]))
    return plan


PLANS = {"every": every, "long": long}
RFS = ("patch", "recreate", "template", "overlayref", "guarded")

LAST = dict(last=("nested", "overlay"), **{"last modes": ("plain", "variant")})
HARNESSES = [
    Harness("singles", sequences, quick=[dict(fut=f, plan="every", n=1, both=True, base=True, free=True, setups=SETUPS + ("stop",)) for f in FUNCTIONS],
            reach=(*MODES, "then ok", "then retry", *SETUPS),
            bounds="a free case and an observer: 5 modes x 10 setups, every assertion kind that holds, symbolic base inputs and live object, 6 functions"),
    Harness("pairs", sequences, quick=[dict(fut=f, plan="every", n=2, initial="present", modes=("plain", "variant", "variant fail"), **LAST) for f in FUNCTIONS],
            thorough=[dict(fut=f, plan="every", n=2, both=True, setups=SETUPS + ("stop",), free=i == 0) for i, f in enumerate(FUNCTIONS)],
            reach=("plain", "variant", "then ok", *SETUPS),
            bounds="2 free cases and an observer: modes x setups each (symbolic override, live and overlay values), 6 functions"),
    Harness("triples", sequences, quick=[dict(fut=f, plan="every", n=3, setups=("none", "nested", "overlay"), modes=("plain", "variant", "skip"), initial="present") for f in ("vf", "patch")],
            thorough=[dict(fut=f, plan="every", n=3, setups=("none", "nested", "current", "overlay", "deep overlay"), modes=("plain", "variant", "variant fail", "skip"), initial="present") for f in FUNCTIONS],
            reach=("plain", "variant", "skip", "then ok"),
            bounds="3 free cases and an observer: 3 modes x 3 setups (thorough 4 x 5)"),
    Harness("long", sequences, quick=[dict(fut="patch", plan="long", n=20, hows=("nested",), apart=2)],
            thorough=[dict(fut=f, plan="long", n=20, hows=("nested", "current"), apart=20) for f in ("patch", "template", "vf")],
            reach=("plain", "variant", "skip"),
            bounds="20 cases of which two (any positions) differ"),
]
