"""C11: static values reach results and resources unchanged."""
import math

from sx.main import Harness

from checks.rflib import *
from checks.wflib import VFREF, offer_ok

NUMERAL = r"-?[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?"
# "digits with fraction" written without digits on one side of the point: left open
UNCLEAR = r"-?(?:[0-9]+\.|\.[0-9]+)(?:[eE][+-]?[0-9]+)?"

SITES = ("vf-return", "vf-locals", "vf-nested", "vf-list", "rf-resource", "rf-label", "rf-overlay", "rf-create-overlay", "rf-template", "rf-return", "wf-inputs", "wf-state", "wf-each",
         "overlay-ref-inputs", "template-overlay")
KEY_SITES = ("vf-return", "vf-locals", "vf-nested", "rf-resource", "rf-label", "rf-overlay", "rf-template", "wf-inputs", "wf-state", "overlay-deep", "template-overlay")


async def vf_result(sx, spec, inputs=None):
    f = await offer(ValueFunction, "vf", {"return": {}, **spec})
    if klass(f) != "ok":
        sx.fail("not-accepted", lambda: f"{deepcopy_plain(spec)} -> {f}")
    r = await aguarded(sx, "crash", reconcile_value_function(location="l", function=f, inputs=cel(inputs or {})))
    if klass(r) != "ok":
        sx.fail("not-evaluated", lambda: f"{deepcopy_plain(spec)} -> {r}")
    return r


async def rf_result(sx, spec, inputs=None):
    f = await offer(ResourceFunction, "rf", spec)
    if klass(f) != "ok":
        sx.fail("not-accepted", lambda: f"{deepcopy_plain(spec)} -> {f}")
    cluster = Cluster()
    r = await aguarded(sx, "crash", reconcile_resource_function(
        api=cluster, location="l", function=f, owner=("ns", OWNER_REF), inputs=cel(inputs or {})))
    posts = [c for c in cluster.log if c.verb == "POST"]
    if len(posts) != 1:
        sx.fail("not-sent", lambda: f"{deepcopy_plain(spec)} -> {r.outcome} {[c.verb for c in cluster.log]}")
    return posts[0].data, f, cluster


MISSING = "<missing>"


def dig(doc, *path):
    for p in path:
        if isinstance(p, int):
            if not isinstance(doc, list) or len(doc) <= p:
                return MISSING
            doc = doc[p]
        else:
            hit = [v for k, v in doc.items() if isinstance(k, str) and k == p] if isinstance(doc, dict) else []
            if len(hit) != 1:
                return MISSING
            doc = hit[0]
    return doc


async def deliver(sx, site, k, v):
    """Put {k: v} at the site of a definition -> the values that come out under k."""
    m = {k: v}
    if site == "vf-return":
        return [dig(await vf_result(sx, {"return": m}), k)]
    if site == "vf-locals":
        return [dig(await vf_result(sx, {"locals": {"l": m}, "return": {"r": "=locals.l"}}), "r", k)]
    if site == "vf-nested":
        return [dig(await vf_result(sx, {"return": {"a": {"b": [1, {"c": m}]}, "z": "end"}}), "a", "b", 1, "c", k)]
    if site == "vf-list":
        r = await vf_result(sx, {"return": {"a": ["x", v, v]}})
        return [dig(r, "a", 1), dig(r, "a", 2)]
    if site == "rf-resource":
        doc, _, _ = await rf_result(sx, rf_spec({"spec": {"pre": "x", **m}}))
        return [dig(doc, "spec", k)]
    if site == "rf-label":
        doc, _, _ = await rf_result(sx, rf_spec({"metadata": {"labels": m}, "spec": {}}))
        return [dig(doc, "metadata", "labels", k)]
    if site == "rf-overlay":
        doc, _, _ = await rf_result(sx, rf_spec({"spec": {"a": "b"}}, overlays=[{"overlay": {"spec": {"m": m}}}]))
        return [dig(doc, "spec", "m", k)]
    if site == "overlay-deep":
        doc, _, _ = await rf_result(sx, rf_spec({"spec": {"m": {**m, "other": "stays"}}}, overlays=[{"overlay": {"spec": {"m": {k: "replaced"}}}}]))
        sx.check(dig(doc, "spec", "m", "other") == "stays", "sibling", lambda: f"{deepcopy_plain(doc)}")
        got = dig(doc, "spec", "m", k)
        sx.check(isinstance(got, str) and got == "replaced", "overlaid-key", lambda: f"{deepcopy_plain(doc)}")
        return [v]
    if site == "rf-create-overlay":
        doc, _, _ = await rf_result(sx, rf_spec({"spec": {"a": "b"}}, create={"overlay": {"spec": {"m": m}}}))
        return [dig(doc, "spec", "m", k)]
    if site in ("rf-template", "template-overlay"):
        await offer_ok(ResourceTemplate, "tmpl", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "metadata": {}, "spec": {"m": m} if site == "rf-template" else {"a": "b"}}})
        over = [{"overlay": {"spec": {"m": m}}}] if site == "template-overlay" else None
        extra = {"overlays": over} if over else {}
        doc, _, _ = await rf_result(sx, rf_spec(None, resourceTemplateRef={"name": "tmpl"}, **extra))
        return [dig(doc, "spec", "m", k)]
    if site == "rf-return":
        _, f, cluster = await rf_result(sx, rf_spec({"spec": {"a": "b"}}, ret={"r": m}))
        r = await aguarded(sx, "crash", reconcile_resource_function(api=cluster, location="l", function=f, owner=("ns", OWNER_REF), inputs=cel({})))
        return [dig(r.outcome, "r", k)]
    if site == "overlay-ref-inputs":
        await offer_ok(ValueFunction, "ov", {"return": {"spec": {"m": "=inputs.m"}}})
        doc, _, _ = await rf_result(sx, rf_spec({"spec": {"a": "b"}}, overlays=[{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"m": m}}]))
        return [dig(doc, "spec", "m", k)]
    # workflows
    from koreo.workflow.reconcile import reconcile_workflow

    await offer_ok(ValueFunction, "echo", {"return": {"got": "=inputs.m"}})
    step = {"label": "step-one", "ref": {"kind": "ValueFunction", "name": "echo"}, "inputs": {"m": {"k": "v"}}}
    if site == "wf-inputs":
        step["inputs"] = {"m": m}
        step["state"] = {"s": "=value.got"}
        path = ("s", k)
    elif site == "wf-state":
        step["state"] = {"s": m}
        path = ("s", k)
    else:
        step["inputs"] = {"m": m}
        step["forEach"] = {"itemIn": "=[1, 2]", "inputKey": "item"}
        step["state"] = {"s": "=value"}
        path = ("s", 1, "got", k)
    w = await offer(Workflow, "wf", {"steps": [step]})
    if klass(w) != "ok" or klass(w.steps_ready) != "ok":
        sx.fail("not-accepted", lambda: f"{deepcopy_plain(step)} -> {w}")
    r = await aguarded(sx, "crash", reconcile_workflow(api=None, workflow_key="w", owner=("ns", OWNER_REF), trigger=cel({}), workflow=w))
    if klass(r.result) != "ok" or r.state_errors:
        sx.fail("not-evaluated", lambda: f"{deepcopy_plain(step)} -> {r.result} {r.state_errors}")
    return [dig(r.state, *path)]


def is_text(v):
    return isinstance(v, str)


def text_as_value(sx, cfg):
    """A text of symbolic characters, between concrete ones, as a value."""

    async def body():
        fresh()
        site = sx.choice("site", cfg.get("sites", SITES))
        n = sx.choice("length", cfg["lengths"])
        pre, post = sx.choice("around", cfg.get("around", (("", ""),)))
        body_ = sx.chars("v", n, exclude="" if pre else "=")
        v = pre + body_ + post
        got = None
        if v == "":
            numeral = unclear = False
        else:
            numeral, unclear = sx.matches(NUMERAL, v), sx.matches(UNCLEAR, v)
        for got in await deliver(sx, site, "k", v):
            info = lambda: f"{site}: {deepcopy_plain(v)!r} came out as {deepcopy_plain(got)!r}"
            if site == "rf-template" and is_text(got):
                sx.check(got == v, "text", info)  # (a template is not evaluated)
            elif numeral or (unclear and not is_text(got)):
                s = deepcopy_plain(v)
                want = float(s) if any(c in s for c in ".eE") else int(s)
                sx.assume(math.isfinite(want) and (isinstance(want, float) or -(2**63) <= want < 2**63))
                sx.check(isinstance(got, (int, float)) and not isinstance(got, bool) and got == want, "numeral", info)
                sx.reach("numeral")
            else:
                sx.check(is_text(got) and got == v, "text", info)
                sx.reach("text")
        sx.observe(deepcopy_plain(got))

    run(body())


def text_as_key(sx, cfg):
    async def body():
        fresh()
        site = sx.choice("site", cfg.get("sites", KEY_SITES))
        n = sx.choice("length", cfg["lengths"])
        pre, post = sx.choice("around", cfg.get("around", (("k", ""),)))
        k = pre + sx.chars("k", n) + post
        for got in await deliver(sx, site, k, "the value"):
            sx.check(is_text(got) and got == "the value", "key", lambda: f"{site}: key {deepcopy_plain(k)!r} gives {deepcopy_plain(got)!r}")
        sx.reach(site)
        sx.observe(deepcopy_plain(k))

    run(body())


WORDS = ("inf", "-inf", "nan", "Infinity", "true", "false", "null", "none", "1_000", "0x1F", "0b1", " 12 ", "12 ", "\t7", "+5", "--5", "1e5", "-1.5E-3", "007", "-0", "1.", ".5", "1.2.3", "1e", "e5",
         "٣", "１２", "²", "", " ", "\n", "\\", "\\n", "\\\\", "\\\"", "'", "''", '"""', '"', '\\"', "a\"b'c\\d\ne\tf\rg", "r\"\"\"x\"\"\"", "\\u0041", "\\x41", "\\101", "C:\\new\\table", "trailing\\", "\"", "// not a comment", "# x",
         "{{ tmpl }}", "${VAR}", "%s %d", "{0}", "a,b:c", "]}", "inputs.x", "size('x')", "é", "日本語", "🙂", "\u0000", "\u2028", "\x85", "line1\nline2\n", "\"\n\"", "\\\n", "=".join("ab"), "9223372036854775807", "-9223372036854775808",
         "1,000", "1/2", "0", "00", "1e+2", "12345678901.5", "v1.2", "10Gi", "500m", "3:30", "2024-01-01", "2024-01-01T00:00:00Z", "1h", "0.1", "1u", "5U", "b'x'")
FLOATS = (1.0, 0.1, -0.5, 1e22, 1e-7, 1.7976931348623157e308, 5e-324, 123456789.123456789, -2.5e-10, 100000.0, 3.0e8)
INTS = (0, 1, -1, 2**31, 2**53 + 1, 2**63 - 1, -(2**63), -12, 10**15)


def value(sx, name, cfg, depth):
    kinds = tuple(cfg["kinds"]) + (("map", "list") if depth else ())
    kind = sx.choice(f"{name}.kind", kinds)
    if kind == "word":
        return sx.choice(f"{name}.word", WORDS)
    if kind == "int":
        return sx.int(name)
    if kind == "edge":
        return sx.choice(f"{name}.edge", INTS)
    if kind == "float":
        return sx.choice(f"{name}.float", FLOATS)
    if kind == "bool":
        return sx.flag(f"{name}.bool")
    if kind == "null":
        return None
    if kind == "emptymap":
        return {}
    if kind == "emptylist":
        return []
    if kind == "emptytext":
        return ""
    if kind == "chars":
        return sx.chars(name, 1, exclude="=0123456789")
    size = sx.choice(f"{name}.size", cfg.get("sizes", (1, 2)))
    if kind == "map":
        keys = ("a b", 'q"t', "1")
        return {keys[i]: value(sx, f"{name}.{i}", cfg, depth - 1) for i in range(size)}
    return [value(sx, f"{name}.{i}", cfg, depth - 1) for i in range(size)]


def expected(v):
    import re

    if isinstance(v, dict):
        return {k: expected(x) for k, x in v.items()}
    if isinstance(v, list):
        return [expected(x) for x in v]
    if type(v) is str and re.fullmatch(NUMERAL, v):
        return float(v) if any(c in v for c in ".eE") else int(v)
    return v


def agree(a, b):
    if type(a) is str and type(b) in (int, float):
        import re

        return False
    return strict_equal(a, b)


def structures(sx, cfg):
    """Nested maps and lists of leaves of every type."""
    import re

    async def body():
        fresh()
        site = sx.choice("site", cfg["sites"])
        v = value(sx, "v", cfg, cfg["depth"])
        if type(v) is str and re.fullmatch(UNCLEAR, v):
            raise PathEnd()
        want = v if site == "rf-template" else expected(v)
        sx.note(site=site, value=v)
        for got in await deliver(sx, site, "k", v):
            sx.check(strict_equal(got, want), "structure", lambda: f"{site}: {deepcopy_plain(v)!r} came out as {deepcopy_plain(got)!r}")
        sx.observe(deepcopy_plain(want))
        sx.reach(site)

    run(body())


AROUND = (("", ""), ("a", "b"), ('"', ""), ("", '"'), ("\\", ""), ("", "\\"), ("x\n", ""), ("'", ""))
STRUCT = dict(kinds=("int", "edge", "float", "bool", "null", "emptymap", "emptylist", "emptytext", "word"))
SMALL = ("int", "float", "bool", "null", "emptymap", "emptylist", "emptytext")
HARNESSES = [
    Harness("text", text_as_value,
            quick=[dict(lengths=(0, 1, 2)), dict(sites=("vf-return", "rf-resource"), lengths=(3,)), dict(sites=("vf-return",), lengths=(4,)),
                   dict(sites=("vf-return", "rf-overlay", "wf-inputs"), lengths=(1, 2), around=AROUND)],
            thorough=[dict(lengths=(0, 1, 2, 3)), dict(sites=("vf-return", "rf-resource", "rf-overlay"), lengths=(4,)), dict(sites=("vf-return",), lengths=(5,)),
                      dict(sites=("vf-return", "rf-overlay", "wf-inputs"), lengths=(1, 2, 3), around=AROUND), dict(sites=("vf-return",), lengths=(6,)), dict(sites=("vf-return",), lengths=(7,))],
            reach=("text", "numeral"), bounds="texts of up to 4 (thorough 7) symbolic characters over all of Unicode but surrogates and private plane 15, alone or around quotes, backslashes and newlines, at 15 places of definitions"),
    Harness("key", text_as_key,
            quick=[dict(lengths=(0, 1, 2)), dict(sites=("vf-return",), lengths=(3,)), dict(sites=("vf-return", "rf-overlay"), lengths=(1, 2), around=(("", "z"), ('"', ""), ("\\", "")))],
            thorough=[dict(lengths=(0, 1, 2, 3)), dict(sites=("vf-return",), lengths=(4, 5)), dict(sites=("vf-return", "rf-overlay"), lengths=(1, 2, 3), around=(("", "z"), ('"', ""), ("\\", "")))],
            reach=KEY_SITES, bounds="map keys of up to 3 (thorough 5) symbolic characters after a concrete one, at 10 places"),
    Harness("structure", structures,
            quick=[dict(sites=SITES, depth=0, **STRUCT), dict(sites=("vf-return", "rf-resource", "wf-inputs"), depth=1, sizes=(1, 2), kinds=SMALL)],
            thorough=[dict(sites=SITES, depth=0, **STRUCT), dict(sites=SITES, depth=1, sizes=(1, 2, 3), kinds=SMALL),
                      dict(sites=("vf-return", "rf-overlay"), depth=2, sizes=(1, 2), kinds=("int", "float", "null", "emptymap", "emptylist", "emptytext")),
                      dict(sites=("vf-return",), depth=3, sizes=(1, 2), kinds=("int", "null"))],
            reach=SITES, bounds="values of every JSON type, integers any int64, nested maps/lists of depth 1 (thorough 3)"),
]
