"""C19: a test case passes exactly when its assertion describes what happened."""
from sx.main import Harness

from checks.ftlib import *

LEAVES = ("text", "int", "bool", "null", "float")


def same_kind(v):
    if isinstance(v, bool):
        return "bool"
    if v is None:
        return "null"
    if isinstance(v, str):
        return "text"
    if isinstance(v, int):
        return "int"
    return "float"


def paths(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, at + (i,))


def edit(v, at, f):
    """`v` with f applied to what is at `at` (f returns DROP to delete it)."""
    if not at:
        return f(v)
    if isinstance(v, dict):
        out = dict(v)
        new = edit(v[at[0]], at[1:], f)
        if new is DROP:
            del out[at[0]]
        else:
            out[at[0]] = new
        return out
    out = list(v)
    new = edit(v[at[0]], at[1:], f)
    if new is DROP:
        del out[at[0]]
    else:
        out[at[0]] = new
    return out


DROP = object()


def get(v, at):
    for k in at:
        v = v[k]
    return v


def deviate(sx, doc, tag="dev", skip=(), directives=True):
    """One step away from `doc` (a changed leaf stays symbolic, so it may also
    be no step at all)."""
    at = sx.choice(f"{tag}.at", [p for p in paths(doc) if p not in skip])
    here = get(doc, at)
    ways = ["same"]
    if at:
        ways += ["null", "map", "list", "text", "int", "bool", "drop"]
    if isinstance(here, dict):
        ways += ["extra", "extra null"]
    if isinstance(here, list):
        ways += ["append", "reverse", "repeat", "empty", "rotate"]
    how = sx.choice(f"{tag}.how", ways)
    sx.note(**{tag: f"{how} at {at}"})
    if how == "same":
        return doc
    if how == "drop":
        return edit(doc, at, lambda _: DROP)
    if how in ("text", "int", "bool", "null"):
        new = sx.leaf_of(f"{tag}.new", how)
        return edit(doc, at, lambda _: new)
    if how == "map":
        return edit(doc, at, lambda v: {"a": v})
    if how == "list":
        return edit(doc, at, lambda v: [v])
    if how in ("extra", "extra null"):
        new = None if how == "extra null" else sx.leaf(f"{tag}.new", ("text", "int"))
        return edit(doc, at, lambda v: {**v, "zz": new})
    if how == "append":
        new = sx.leaf(f"{tag}.new", ("text", "null", "bool"))
        return edit(doc, at, lambda v: v + [new])
    if how == "repeat":
        return edit(doc, at, lambda v: v + v[:1])
    if how == "empty":
        return edit(doc, at, lambda v: [])
    if how == "rotate":
        return edit(doc, at, lambda v: v[1:] + v[:1])
    return edit(doc, at, lambda v: v[::-1])


async def verdict(sx, fut, function, inputs, resource, assertion, t=None, why=""):
    """Run a one-case test and compare its verdict with the truth."""
    t = t or await truth(sx, function, inputs, resource)
    expect = holds(assertion, t)
    shown = deepcopy_plain(dict(inputs=inputs, resource=resource, assertion=assertion))
    info = lambda: f"{why} {shown!r}: the function did {deepcopy_plain([t.outcome, t.sent, t.deleted])!r}"[:2500]
    test = await prepare(fut, inputs, resource, [dict(assertion)])
    res = await execute(sx, test, info)
    sx.check(len(res.test_results) == 1, "one-result", info)
    got = res.test_results[0].test_pass
    sx.observe(klass(t.outcome), t.sent is not None, t.deleted, got)
    if expect is True:
        sx.check(got is True or got == True, f"false-alarm{why}", info)
        sx.reach("pass")
    elif expect is False:
        sx.check(not got, f"false-pass{why}", info)
        sx.reach("fail")
    sx.reach(klass(t.outcome))


# ------------------------------------------------------------------ expectReturn

VALUES = {
    "leaf": lambda sx: sx.leaf("v", LEAVES),
    "list": lambda sx: [sx.leaf("v0", LEAVES), sx.leaf("v1", ("text", "int"))],
    "map": lambda sx: {"a": sx.leaf("va", LEAVES), "b": {"c": sx.text("vc")}},
    "nested": lambda sx: [{"a": [sx.leaf("v0", ("bool", "text")), []], "b": {}}, sx.int("v1")],
    "empty": lambda sx: sx.choice("v", ({}, [], "", 0, False)),
}


def returned(sx, cfg):
    """The returned value against anything one step away from it."""

    async def body():
        fresh()
        v = VALUES[cfg["value"]](sx)
        inputs = {"v": v, "w": 1}
        spec = {"return": {"v": "=inputs.v", "k": {"d": "=inputs.w"}}}
        resource = None
        if cfg["fut"] != "vf":
            spec = rf(resource={"spec": {"a": 1}}, ret=spec["return"], api={"readonly": True} if sx.flag("readonly") else None)
            resource = live({"a": 1}) if sx.flag("exists") else None
        f = await make(sx, cfg["fut"], spec)
        value = deviate(sx, {"v": v, "k": {"d": 1}})
        if not value:
            raise PathEnd()
        await verdict(sx, cfg["fut"], f, inputs, resource, {"expectReturn": value})

    run(body())


def directed(sx, cfg):
    """Lists under a comparison directive of the assertion."""

    async def body():
        fresh()
        n = sx.choice("n", cfg.get("sizes", (0, 1, 2)))
        m = sx.choice("m", cfg.get("sizes", (0, 1, 2)))
        if cfg["as"] == "set":
            side = lambda tag, n: [sx.leaf(f"{tag}{i}", ("text", "int", "null") if cfg.get("mixed") is None else ("bool", "int", "text")) for i in range(n)]
            d = {SET: ["l"]}
        else:
            name = lambda tag: sx.chars(tag, sx.choice(f"{tag}#", (1, 2))) if cfg.get("chars") else sx.text(tag)
            side = lambda tag, n: [{"n": name(f"{tag}{i}n"), "p": 0 if cfg.get("chars") else sx.int(f"{tag}{i}p")} for i in range(n)]
            d = {MAP: {"l": ["n", "p"] if cfg["as"] == "map2" else ["n"]}}
        have, want = side("h", n), side("w", m)
        f = await make(sx, "vf", {"return": {"v": {"l": "=inputs.l"}}})
        await verdict(sx, "vf", f, {"l": have, "x": 1}, None, {"expectReturn": {"v": {**d, "l": want}}}, why=f"[{cfg['as']}{' bool' if cfg.get('mixed') else ''}{' keys' if cfg.get('chars') else ''}]")

    run(body())


def misdirected(sx, cfg):
    """A directive on something else than it is for."""

    async def body():
        fresh()
        have = sx.choice("have", (None, 5, "text", "", True, {"a": 1}, {}, [], ["x"], [1, None], [[]], [{"n": 1}]))
        want = sx.choice("want", (None, 5, "text", {"a": 1}, [], ["x"], [{"n": 1}], [{}]))
        d = {SET: ["l", "zz"]} if cfg["as"] == "set" else {MAP: {"l": ["n"], "zz": ["n"]}}
        f = await make(sx, "vf", {"return": {"v": {"l": "=inputs.l"}}})
        await verdict(sx, "vf", f, {"l": have, "x": 1}, None, {"expectReturn": {"v": {**d, "l": want}}}, why=f"[{cfg['as']}: {type(have).__name__} vs {type(want).__name__}]")

    run(body())


# -------------------------------------------------------------- expectResource

TARGETS = {
    "plain": {"spec": {"a": "=inputs.a", "l": ["=inputs.b", 1], "m": {"x": True}}},
    "annotated": {"metadata": {"annotations": {"note": "=inputs.a"}, "labels": {"l": "x"}}, "spec": {"a": "=inputs.b"}},
    "set": {"spec": {SET: ["l"], "l": ["=inputs.a", "z"], "n": None}},
}


def attempted(sx, cfg):
    """The object of a create or patch against anything one step away."""

    async def body():
        fresh()
        update = sx.choice("update", ("patch", "recreate", "never"))
        create = sx.choice("create", (None, {"overlay": {"spec": {"c": "=inputs.a"}}}, {"enabled": False}))
        extra = {"create": create} if create else {}
        if sx.flag("overlay"):
            extra["overlays"] = [{"overlay": {"spec": {"o": "=inputs.b"}}}]
        f = await make(sx, "rf", rf(resource=TARGETS[cfg["target"]], update=update, **extra))
        inputs = {"a": sx.text("a"), "b": sx.text("b")}
        state = sx.choice("live", ("absent", "differs", "symbolic"))
        resource = None if state == "absent" else live({"a": "other"} if state == "differs" else {"a": sx.text("la")})
        t = await truth(sx, f, inputs, resource)
        if t.sent is None:
            value = live({"a": inputs["a"]})
        else:
            value = deviate(sx, bare(t.sent))
            if not value:
                raise PathEnd()
        sx.reach("sent" if t.sent else "nothing sent")
        await verdict(sx, "rf", f, inputs, resource, {"expectResource": value}, t)

    run(body())


def other_fields(sx, cfg):
    """The live object carries fields the function does not set."""

    async def body():
        fresh()
        f = await make(sx, "rf", rf(resource={"spec": {"a": "=inputs.a"}}, update="patch"))
        inputs = {"a": sx.text("a"), "b": 1}
        resource = live({"a": "other"})
        top = cfg["at"] == "top"
        if top:
            resource["status"] = {"ready": True}
        elif cfg["at"] == "metadata":
            resource["metadata"]["uid"] = "u"
        else:
            resource["spec"]["extra"] = 1
        t = await truth(sx, f, inputs, resource)
        value = bare(t.sent) if t.sent is not None else live({"a": 1})
        if sx.flag("and more"):
            value = {**resource, **value}
        await verdict(sx, "rf", f, inputs, resource, {"expectResource": value}, t, why=f"[live has more: {cfg['at']}]")

    run(body())


# ------------------------------------------------- expectDelete, every situation

PRE = [{"assert": "=inputs.ok", "skip": {"message": "no"}}]


def situations(sx, cfg):
    """Every assertion in every situation a function can be in."""

    async def body():
        fresh()
        update = sx.choice("update", ("patch", "recreate", "never"))
        api = sx.choice("api", (None, {"readonly": True}, {"deleteIfExists": True}))
        extra = {"preconditions": PRE}
        post = sx.choice("post", (None, "permFail", "retry", "depSkip"))
        if post:
            extra["postconditions"] = [{"assert": "=resource.spec.a == 'fine'", post: {"message": "=inputs.a", **({"delay": 4} if post == "retry" else {})}}]
        if sx.choice("create", (True, False)) is False:
            extra["create"] = {"enabled": False}
        f = await make(sx, "rf", rf(resource={"spec": {"a": "=inputs.a"}}, update=update, api=api, ret={"a": "=inputs.a"}, **extra))
        inputs = {"a": sx.text("a"), "ok": sx.flag("precondition")}
        resource = live({"a": sx.text("la")}) if sx.flag("exists") else None
        t = await truth(sx, f, inputs, resource)
        sent = t.sent
        for assertion in (
            {"expectDelete": True},
            {"expectDelete": False},
            {"expectReturn": {"a": inputs["a"]}},
            {"expectResource": bare(sent) if sent else live({"a": inputs["a"]})},
            {"expectOutcome": {"ok": {}}},
            {"expectOutcome": {"skip": {"message": ""}}},
            {"expectOutcome": {"depSkip": {"message": ""}}},
            {"expectOutcome": {"permFail": {"message": ""}}},
            {"expectOutcome": {"retry": {"message": "", "delay": 0}}},
            {"expectOutcome": {"retry": {"message": "", "delay": 4}}},
            {"expectOutcome": {"retry": {"message": "", "delay": 11}}},
        ):
            await verdict(sx, "rf", f, inputs, resource, assertion, t)
        sx.reach("deleted" if t.deleted else "kept")

    run(body())


# ---------------------------------------------------------------- expectOutcome

CLASSES_ = ("skip", "depSkip", "retry", "permFail", "ok")


def outcomes(sx, cfg):
    """Every class, message and delay against every outcome of the function."""

    async def body():
        fresh()
        did = cfg["did"]
        n = sx.choice("len", (1, 2) if cfg["fut"] == "vf" else (1,))
        said_ = sx.chars("m", n)
        delay = sx.choice("delay", (0, 1, 30))
        say = {"message": "=inputs.m"}
        if did == "retry":
            say["delay"] = delay
        checks = [{"assert": "=false", did: {} if did == "ok" else say}]
        spec = {"preconditions": checks, "return": {"a": 1}}
        if cfg["fut"] == "rf":
            spec = rf(preconditions=checks)
        f = await make(sx, cfg["fut"], spec)
        cls = sx.choice("expect", CLASSES_)
        want = {}
        if cls != "ok":
            k = sx.choice("want len", (0, 1, 2) if cfg.get("long") else (0, 1))
            want["message"] = sx.chars("w", k) if k else ""
        if cls == "retry":
            want["delay"] = sx.int("want delay", lo=0, hi=10**6)
        await verdict(sx, cfg["fut"], f, {"m": said_, "x": 1}, None, {"expectOutcome": {cls: want}})

    run(body())


HARNESSES = [
    Harness("situations", situations, quick=[{}], reach=("pass", "fail", "deleted", "kept", "ok", "retry", "skip", "permfail", "depskip"),
            bounds="one ResourceFunction with pre/postconditions, every update rule, readonly/deleteIfExists/create disabled, live object absent or with a symbolic field; 11 assertions each"),
    Harness("returned", returned, quick=[dict(fut=f, value=v) for f in ("vf", "rf") for v in VALUES], reach=("pass", "fail"),
            bounds="return values up to depth 3 with symbolic leaves; one deviation at any path: 7 retypings with symbolic leaves, drop, extra key, list edits"),
    Harness("directed", directed, quick=[{"as": "set"}, {"as": "set", "mixed": True}, {"as": "map"}, {"as": "map2"}, {"as": "map", "chars": True}],
            thorough=[{"as": "set", "sizes": (0, 1, 2, 3)}, {"as": "set", "mixed": True}, {"as": "map", "sizes": (0, 1, 2, 3)}, {"as": "map2", "sizes": (0, 1, 2, 3)}, {"as": "map", "chars": True}],
            reach=("pass", "fail"),
            bounds="lists of 0..2 (thorough 3) symbolic members on both sides under the set and map directives"),
    Harness("misdirected", misdirected, quick=[{"as": "set"}, {"as": "map"}], reach=("fail",),
            bounds="11 x 8 values under a directive meant for lists"),
    Harness("attempted", attempted, quick=[dict(target=t) for t in TARGETS], reach=("pass", "fail", "sent", "nothing sent"),
            bounds="3 targets x update rule x create rule x overlay x live object; one deviation of the sent object at any path"),
    Harness("other-fields", other_fields, quick=[{"at": "top"}, {"at": "spec"}, {"at": "metadata"}], reach=("pass", "fail"),
            bounds="a live object with one field the function does not set, per level"),
    Harness("outcomes", outcomes, quick=[dict(fut=f, did=d) for f in ("vf", "rf") for d in CLASSES_],
            thorough=[dict(fut=f, did=d, long=True) for f in ("vf", "rf") for d in CLASSES_], reach=("pass", "fail", "ok", "retry", "skip", "permfail", "depskip"),
            bounds="5 expected x 5 actual classes, messages of 1..2 and expected texts of 0..1 (thorough 2) symbolic characters, symbolic expected delay"),
]
