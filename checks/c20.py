"""C20: preparing any definition never crashes; schema violations are rejected
before anything is compiled or looked up."""
import pathlib

import kr8s
import yaml

from koreo import schema as koreo_schema
from sx.main import Harness

from checks import exprs
from checks.lib import *

# ------------------------------------------------- the bundled schemas, re-read

_CRDS = {}


def crd(kind):
    if not _CRDS:
        for f in pathlib.Path(koreo_schema.__file__).parent.glob("*.yaml"):
            for doc in yaml.safe_load_all(f.read_text()):
                if isinstance(doc, dict) and doc.get("kind") == "CustomResourceDefinition":
                    for v in doc["spec"]["versions"]:
                        if v["name"] == "v1beta1":
                            _CRDS[doc["spec"]["names"]["kind"]] = v["schema"]["openAPIV3Schema"]["properties"]["spec"]
    return _CRDS[kind]


OPEN = None  # the schema's dialects disagree


def conforms(s, v):
    """True / False / OPEN: does `v` satisfy the schema (x-kubernetes-* rules are
    the API server's business)?"""
    verdicts = []
    if v is None and s.get("nullable"):
        return OPEN  # OpenAPI: fine; JSON schema: wrong type
    t = s.get("type")
    if t == "object":
        verdicts.append(isinstance(v, dict))
    elif t == "array":
        verdicts.append(isinstance(v, (list, tuple)))
    elif t == "string":
        verdicts.append(isinstance(v, str))
    elif t == "boolean":
        verdicts.append(isinstance(v, bool))
    elif t == "integer":
        if isinstance(v, float) and v == int(v):
            verdicts.append(OPEN)
        else:
            verdicts.append(isinstance(v, int) and not isinstance(v, bool))
    elif t is not None:
        raise AssertionError(f"schema type {t}")
    if "enum" in s:
        verdicts.append(any(type(v) is type(e) and v == e for e in s["enum"]) if not isinstance(v, Sym) else any(v == e for e in s["enum"]))
    if isinstance(v, dict):
        for k in s.get("required", ()):
            verdicts.append(k in v)
        props = s.get("properties", {})
        for k, x in v.items():
            if k in props:
                verdicts.append(conforms(props[k], x))
            elif s.get("additionalProperties") is False:
                verdicts.append(False)
        if "minProperties" in s:
            verdicts.append(len(v) >= s["minProperties"])
        if "maxProperties" in s:
            verdicts.append(len(v) <= s["maxProperties"])
    if isinstance(v, (list, tuple)):
        for x in v:
            verdicts.append(conforms(s.get("items", {}), x))
        if "minItems" in s:
            verdicts.append(len(v) >= s["minItems"])
        if "maxItems" in s:
            verdicts.append(len(v) <= s["maxItems"])
    if isinstance(v, str):
        if "minLength" in s:
            verdicts.append(len(v) >= s["minLength"])
        if "maxLength" in s:
            verdicts.append(len(v) <= s["maxLength"])
    for word, ok in (("oneOf", lambda n, o: (n == 1 if not o else OPEN)), ("anyOf", lambda n, o: True if n else (OPEN if o else False))):
        if word in s:
            parts = [conforms(p, v) for p in s[word]]
            verdicts.append(ok(sum(p is True for p in parts), sum(p is OPEN for p in parts)))
    if False in verdicts:
        return False
    return OPEN if OPEN in verdicts else True


KINDS = {"ValueFunction": ValueFunction, "ResourceFunction": ResourceFunction, "ResourceTemplate": ResourceTemplate,
         "Workflow": Workflow, "FunctionTest": FunctionTest}


# ------------------------------------------------------------- watching koreo


_LOOKUPS = []


def _lookups():
    """Where koreo's modules keep the functions that look a resource up."""
    if not _LOOKUPS:
        lookups = [getattr(cache, n) for n in ("get_resource_from_cache", "get_resource_system_data_from_cache") if hasattr(cache, n)]
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] == "koreo" and mod is not None:
                _LOOKUPS.extend((mod, k) for k, v in vars(mod).items() if any(v is f for f in lookups))
    return _LOOKUPS


class Watch:
    """Counts compilations and lookups while active."""

    def __enter__(self):
        self.seen = []
        self.undo = []

        def wrap(holder, name, what):
            original = getattr(holder, name)

            def counted(*a, **k):
                self.seen.append(what)
                return original(*a, **k)

            self.undo.append((holder, name, original))
            setattr(holder, name, counted)

        wrap(celpy.Environment, "compile", "compile")
        wrap(celpy.Environment, "program", "program")
        wrap(kr8s.objects, "get_class", "kind lookup")
        wrap(kr8s.objects, "new_class", "kind creation")
        for mod, k in _lookups():
            wrap(mod, k, "cache lookup")
        return self

    def __exit__(self, *exc):
        for holder, name, original in reversed(self.undo):
            setattr(holder, name, original)


async def judge(sx, kind, spec, what=None, cached=True):
    """Prepare `spec` and hold the outcome against the property."""
    shown = deepcopy_plain(spec)
    info = lambda: f"{kind} {what or ''} spec={shown!r}"[:1500]
    verdict = conforms(crd(kind), spec)
    key = what or kind
    with Watch() as w:
        try:
            out = await PREPARERS[KINDS[kind]]("subject", copy.deepcopy(spec))
        except (PathEnd, Violated, asyncio.CancelledError):
            raise
        except BaseException as err:
            sx.fail(f"raises[{kind}:{where(err)}]", f"{info()}: {type(err).__name__}: {err}")
    got = klass(out)
    sx.observe(got if not isinstance(out, tuple) else "prepared", verdict)
    if isinstance(out, tuple):
        sx.check(len(out) == 2 and isinstance(out[0], KINDS[kind]), "prepared-shape", lambda: f"{info()} -> {out!r}")
        sx.check(verdict is not False, "schema-violation-accepted", info)
        sx.reach("prepared")
    else:
        sx.check(got in ("permfail", "retry"), "outcome-class", lambda: f"{info()} -> {out!r}")
        sx.check(isinstance(out.message, str) and len(_native(out.message)) > 0, "outcome-message", lambda: f"{info()} -> {out!r}")
        if verdict is False:
            sx.check(got == "permfail", "schema-violation-not-permfail", lambda: f"{info()} -> {out}")
            sx.check(not w.seen, "work-before-rejection", lambda: f"{info()} -> {w.seen}")
            sx.reach("rejected")
        else:
            sx.reach("failed")
    if cached:
        res = None
        try:
            res = await offer(KINDS[kind], "subject", spec)
        except (PathEnd, Violated, asyncio.CancelledError):
            raise
        except BaseException as err:
            sx.fail(f"cache-raises[{kind}:{where(err)}]", f"{info()}: {type(err).__name__}: {err}")
        sx.check(klass(res) == got, "cached-class", lambda: f"{info()}: {got} but {klass(res)} when cached")
    return out


def where(err):
    """The function of koreo an exception came from."""
    tb, name = err.__traceback__, "?"
    while tb is not None:
        mod = tb.tb_frame.f_globals.get("__name__", "")
        if mod.split(".")[0] == "koreo":
            name = f"{mod.removeprefix('koreo.')}.{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return f"{name}/{type(err).__name__}" + (":overflow" if str(err) == "overflow" else "")


def _native(s):
    return s if not isinstance(s, Sym) else deepcopy_plain(s)


NEEDS = {"ValueFunction": (), "ResourceTemplate": (), "ResourceFunction": ("vf", "broken"), "Workflow": ("vf", "rf", "wf", "broken"), "FunctionTest": ("vf", "tpl", "rf", "rfl")}


async def world(kind):
    """What definitions may refer to."""
    fresh()
    for cls, name, spec in (
        (ValueFunction, "vf", {"return": {"a": 1}}),
        (ResourceTemplate, "tpl", {"template": {"apiVersion": "v1", "kind": "ConfigMap", "data": {}}}),
        (ResourceFunction, "rf", {"apiConfig": {"apiVersion": "v1", "kind": "ConfigMap", "plural": "configmaps", "name": "=inputs.name", "namespace": "ns"},
                                  "locals": {"t": "=inputs.t"}, "resourceTemplateRef": {"name": "=inputs.t"}}),
        (ResourceFunction, "rfl", {"apiConfig": {"apiVersion": "v1", "kind": "ConfigMap", "plural": "configmaps", "name": "x", "namespace": "ns"},
                                   "locals": {"t": "=inputs.t + '-x'"}, "resourceTemplateRef": {"name": "=locals.t"}}),
        (Workflow, "wf", {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"p": "=parent.p"}}]}),
        (ValueFunction, "broken", {}),
    ):
        if name not in NEEDS[kind]:
            continue
        await offer(cls, name, spec)


PREDICATES = [
    {"assert": "=inputs.a", "skip": {"message": "m"}},
    {"assert": "=inputs.b > 1", "retry": {"message": "=inputs.m", "delay": 3}},
    {"assert": "=true", "permFail": {"message": "m"}},
    {"assert": "=true", "depSkip": {"message": "m"}},
    {"assert": "=true", "ok": {}},
]
FULL = {
    "ValueFunction": {
        "preconditions": PREDICATES,
        "locals": {"x": "=inputs.a", "n": {"l": ["=1", "two"]}},
        "return": {"r": "=locals.x", "m": {"deep": {"v": 1}}, "l": [1, {"k": "=inputs.k"}]},
    },
    "ResourceTemplate": {"template": {"apiVersion": "v1", "kind": "ConfigMap", "metadata": {"labels": {"a": "b"}}, "data": {"n": 1, "l": ["x"]}}, "context": {"c": {"d": 1}}},
    "ResourceFunction": {
        "preconditions": PREDICATES[:2],
        "locals": {"x": "=inputs.a"},
        "apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "namespaced": True, "owned": True, "readonly": False,
                      "deleteIfExists": False, "name": "=inputs.name", "namespace": "=inputs.ns"},
        "resource": {"metadata": {"labels": {"l": "=locals.x"}}, "spec": {"v": "=inputs.v", "l": ["=inputs.w", 1]}},
        "overlays": [
            {"overlay": {"spec": {"o": "=inputs.o"}}, "skipIf": "=inputs.s"},
            {"overlayRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"i": "=inputs.i"}, "skipIf": "=!inputs.s"},
        ],
        "create": {"enabled": True, "delay": 3, "overlay": {"spec": {"c": "=inputs.c"}}},
        "update": {"patch": {"delay": 4}},
        "delete": {"abandon": {}},
        "postconditions": PREDICATES[3:],
        "return": {"r": "=resource.metadata.name"},
    },
    "ResourceFunction/ref": {
        "apiConfig": {"apiVersion": "v1", "kind": "ConfigMap", "name": "n", "namespaced": False},
        "resourceTemplateRef": {"name": "='tpl-' + inputs.t"},
        "create": {"enabled": False},
        "update": {"never": {}},
        "delete": {"destroy": {}},
    },
    "ResourceFunction/recreate": {
        "apiConfig": {"apiVersion": "v1", "kind": "ConfigMap", "name": "n", "namespace": "ns"},
        "resource": {},
        "update": {"recreate": {"delay": 1}},
    },
    "Workflow": {
        "crdRef": {"apiGroup": "g.dev", "version": "v1", "kind": "Thing"},
        "steps": [
            {"label": "first", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"a": "=parent.spec.a", "n": {"b": [1]}},
             "condition": {"type": "First", "name": "the first"}, "state": {"s": "=value.a"}, "skipIf": "=parent.skip"},
            {"label": "switch", "refSwitch": {"switchOn": "=steps.first.a", "cases": [
                {"case": "one", "kind": "ValueFunction", "name": "vf", "default": True}, {"case": "two", "kind": "Workflow", "name": "wf"}]}},
            {"label": "each", "ref": {"kind": "ResourceFunction", "name": "rf"}, "forEach": {"itemIn": "=steps.first.items", "inputKey": "item"}, "inputs": {"x": "=steps['switch'].y"}},
        ],
    },
    "FunctionTest": {
        "functionRef": {"kind": "ResourceFunction", "name": "rf"},
        "inputs": {"name": "n", "t": "tpl"},
        "currentResource": {"apiVersion": "v1", "kind": "ConfigMap", "metadata": {"name": "n"}},
        "testCases": [
            {"label": "create", "expectResource": {"spec": {"a": 1}}, "inputOverrides": {"t": "other"}, "variant": True, "skip": False},
            {"expectOutcome": {"retry": {"message": "m", "delay": 1}}, "overlayResource": {"spec": {"a": "=template.spec.b"}}},
            {"expectOutcome": {"skip": {"message": ""}}, "currentResource": {"apiVersion": "v1", "kind": "ConfigMap"}},
            {"expectOutcome": {"ok": {}}},
            {"expectReturn": {"a": [1]}},
            {"expectDelete": False},
        ],
    },
    "FunctionTest/locals": {
        "functionRef": {"kind": "ResourceFunction", "name": "rfl"},
        "inputs": {"t": "tpl"},
        "testCases": [{"label": "x", "expectReturn": {"a": 1}, "inputOverrides": {"u": 1}}, {"label": "y", "expectDelete": True, "inputOverrides": {"t": "tpl2"}}],
    },
    "FunctionTest/value": {
        "functionRef": {"kind": "ValueFunction", "name": "vf"},
        "testCases": [{"expectReturn": {"a": 1}}, {"expectOutcome": {"permFail": {"message": "x"}}}, {"expectOutcome": {"depSkip": {"message": "x"}}}],
    },
}

VALUES = {
    "null": None, "true": True, "false": False, "zero": 0, "minus": -1, "float": 1.5, "whole float": 2.0, "huge": 2**70, "-huge": -(2**63) - 1, "exp": 1e300,
    "empty text": "", "text": "x", "eq": "=", "eqeq": "==1", "expr": "=inputs.z", "broken": "=1 +", "unbalanced": "=(", "blank": "= ", "escape": "='\\q'", "quote": '"', "nul": "\0",
    "surrogate": "x\ud800", "braces": "{x}", "percent": "%s", "name": "broken", "long": "x" * 70,
    "empty list": [], "list": ["x"], "null list": [None], "expr list": ["=a.b"], "deep list": [[["=1 +"]]],
    "empty map": {}, "map": {"a": 1}, "null map": {"a": None}, "odd key": {"": 1, "{x}": 2, '"': 3, "\\": 4}, "expr map": {"a": "=b.c", "d": "=1 +"}, "huge map": {"a": {"b": [2**64]}}, "list map": [{"a": 1}, {}],
}
SOME = ("null", "true", "zero", "float", "whole float", "huge", "empty text", "text", "expr", "broken", "surrogate", "braces", "empty list", "null list", "expr list", "empty map", "map", "odd key", "huge map", "list map")
FEW = ("null", "zero", "empty text", "text", "broken", "list", "empty map", "map", "huge")


def paths(v, at=()):
    yield at
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], at + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, at + (i,))


def mutate(sx, tag, spec, at, values):
    """One deviation at the path `at`."""
    here = spec
    for k in at:
        here = here[k]
    ways = ["set"]
    if at:
        ways.append("delete")
    if isinstance(here, dict):
        ways += ["extra", "many"]
    if isinstance(here, list):
        ways += ["append", "repeat", "repeat more", "reverse"]
    if isinstance(here, bool) or not isinstance(here, (int, str)):
        pass
    else:
        ways.append("symbolic")
    how = sx.choice(f"{tag}.how", ways)
    if isinstance(values, dict):
        values = tuple(values)
    if how == "set":
        new = copy.deepcopy(VALUES[sx.choice(f"{tag}.to", values)])
    elif how == "symbolic":
        new = sx.int(f"{tag}.int") if isinstance(here, int) else sx.chars(f"{tag}.chars", sx.choice(f"{tag}.len", (1, 2)))
    elif how == "extra":
        new = {**here, sx.choice(f"{tag}.key", ("zz", "{x}", "ok", "spec", "assert", "resource", "overlay", "ref")): copy.deepcopy(VALUES[sx.choice(f"{tag}.to", FEW)])}
    elif how == "many":
        new = {**here, **{f"k{i}": i for i in range(sx.choice(f"{tag}.n", (9, 10, 11)))}}
    elif how == "append":
        new = here + [copy.deepcopy(VALUES[sx.choice(f"{tag}.to", FEW)])]
    elif how in ("repeat", "repeat more"):
        new = [copy.deepcopy(here[i % len(here)]) for i in range(sx.choice(f"{tag}.n", (10, 11, 20, 21)))] if here else [1] * 21
    elif how == "reverse":
        new = here[::-1]
    else:
        new = None
    sx.note(**{tag: f"{how} at {at}"})
    if not at:
        return new if how != "delete" else None
    parent = spec
    for k in at[:-1]:
        parent = parent[k]
    if how == "delete":
        del parent[at[-1]]
    else:
        parent[at[-1]] = new
    return spec


def shapes(sx, cfg):
    """A complete definition with one (thorough: two) deviations anywhere."""

    async def body():
        base = cfg["base"]
        kind = base.split("/")[0]
        await world(kind)
        spec = copy.deepcopy(FULL[base])
        at = sx.choice("at", list(paths(spec))[cfg.get("from", 0) :: cfg.get("step", 1)])
        spec = mutate(sx, "m1", spec, at, FEW if cfg.get("two") else VALUES if cfg.get("all") else SOME)
        if cfg.get("two"):
            more = [p for p in paths(spec) if not isinstance(_at(spec, p), Sym) and p > at and p[: len(at)] != at] if _comparable(spec, at) else []
            if not more:
                raise PathEnd()
            spec = mutate(sx, "m2", spec, sx.choice("at2", more), FEW)
        await judge(sx, kind, spec, cached=not cfg.get("two"))

    run(body())


def _at(spec, p):
    for k in p:
        spec = spec[k]
    return spec


def _comparable(spec, at):
    return isinstance(spec, dict)


def anything(sx, cfg):
    """Any small JSON value as the whole spec, of every kind."""

    def value(tag, depth):
        kind = sx.choice(f"{tag}?", ("null", "bool", "int", "float", "text", "list", "map") if depth else ("null", "int", "text"))
        if kind == "null":
            return None
        if kind == "bool":
            return sx.flag(tag)
        if kind == "int":
            return sx.int(tag)
        if kind == "float":
            return 0.5
        if kind == "text":
            return sx.text(tag)
        if kind == "list":
            return [value(f"{tag}[{i}]", depth - 1) for i in range(sx.choice(f"{tag}#", (0, 1, 2)))]
        names = top_names(cfg["kind"]) if depth == 2 else ("a",)
        out = {}
        for i in range(sx.choice(f"{tag}#", (0, 1, 2) if depth == 2 and cfg.get("deep") else (0, 1))):
            out[sx.choice(f"{tag}.{i}", names)] = value(f"{tag}.{i}v", depth - 1)
        return out

    async def body():
        await world(cfg["kind"])
        await judge(sx, cfg["kind"], value("v", 2), cached=False)

    run(body())


def top_names(kind):
    return tuple(crd(kind)["properties"]) + ("zz",)


TESTED = {"functionRef": {"kind": "ResourceFunction", "name": "probe"}, "inputs": {"a": "x", "b": {"c": 1}, "l": [1]},
          "testCases": [{"expectReturn": {"a": 1}}, {"inputOverrides": {"a": 5, "l": None}, "expectReturn": {"a": 1}}]}

# every field that holds an expression: kind -> builder, builder of the function under test
FIELDS = {
    "vf.assert": ("ValueFunction", lambda e: {"preconditions": [{"assert": e, "skip": {"message": "m"}}]}),
    "vf.message": ("ValueFunction", lambda e: {"preconditions": [{"assert": "=true", "retry": {"message": e, "delay": 1}}]}),
    "vf.ok": ("ValueFunction", lambda e: {"preconditions": [{"assert": "=true", "ok": {"x": e}}]}),
    "vf.locals": ("ValueFunction", lambda e: {"locals": {"a": [e]}, "return": {"a": 1}}),
    "vf.return": ("ValueFunction", lambda e: {"return": {"a": {"b": e}, "c": [{"d": e}]}}),
    "rf.assert": ("ResourceFunction", lambda e: rf(preconditions=[{"assert": e, "ok": {}}])),
    "rf.post": ("ResourceFunction", lambda e: rf(postconditions=[{"assert": e, "depSkip": {"message": "m"}}])),
    "rf.locals": ("ResourceFunction", lambda e: rf(locals={"a": e})),
    "rf.name": ("ResourceFunction", lambda e: rf(api=dict(name=e))),
    "rf.namespace": ("ResourceFunction", lambda e: rf(api=dict(namespace=e))),
    "rf.resource": ("ResourceFunction", lambda e: rf(resource={"spec": {"a": [e], "b": {"c": e}}})),
    "rf.templateref": ("ResourceFunction", lambda e: rf(resource=None, resourceTemplateRef={"name": e})),
    "rf.overlay": ("ResourceFunction", lambda e: rf(overlays=[{"overlay": {"spec": {"a": e}}}])),
    "rf.overlayinputs": ("ResourceFunction", lambda e: rf(overlays=[{"overlayRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"a": e}}])),
    "rf.skipif": ("ResourceFunction", lambda e: rf(overlays=[{"overlay": {"spec": {"a": 1}}, "skipIf": e}])),
    "rf.create": ("ResourceFunction", lambda e: rf(create={"overlay": {"a": e}})),
    "rf.return": ("ResourceFunction", lambda e: rf(**{"return": {"a": e}})),
    "wf.inputs": ("Workflow", lambda e: wf(inputs={"a": e})),
    "wf.skipif": ("Workflow", lambda e: wf(skipIf=e)),
    "wf.foreach": ("Workflow", lambda e: wf(forEach={"itemIn": e, "inputKey": "k"})),
    "wf.switch": ("Workflow", lambda e: wf(ref=None, refSwitch={"switchOn": e, "cases": [{"case": "x", "kind": "ValueFunction", "name": "vf"}]})),
    "wf.state": ("Workflow", lambda e: wf(state={"a": e})),
    "ft.overlay": ("FunctionTest", lambda e: {"functionRef": {"kind": "ResourceFunction", "name": "rf"}, "testCases": [{"overlayResource": {"a": {"b": e}}, "expectReturn": {"a": 1}}]}),
    "tested.locals": ("FunctionTest", lambda e: TESTED, lambda e: rf(resource=None, locals={"t": e}, resourceTemplateRef={"name": "=locals.t"})),
    "tested.template": ("FunctionTest", lambda e: TESTED, lambda e: rf(resource=None, resourceTemplateRef={"name": e})),
    "key": ("ValueFunction", lambda e: {"return": {"a": {e: 1}}, "locals": {e: 1}}),
}


def rf(api=None, resource={"spec": {"a": 1}}, **extra):
    spec = {"apiConfig": {"apiVersion": "v1", "kind": "ConfigMap", "plural": "configmaps", "name": "n", "namespace": "ns", **(api or {})}, **extra}
    if resource is not None:
        spec["resource"] = resource
    return spec


def wf(ref={"kind": "ValueFunction", "name": "vf"}, **extra):
    step = {"label": "two", **extra}
    if ref is not None:
        step["ref"] = ref
    return {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}}, step]}


def expressions(sx, cfg):
    """Every expression the grammar makes up to the nesting depth, per field."""

    async def body():
        kind, build, *other = FIELDS[cfg["field"]]
        await world(kind)
        text = exprs.expression(sx, "e", cfg["depth"])
        for b in other:
            await offer(ResourceFunction, "probe", b(f"={text}"))
        out = await judge(sx, kind, build(f"={text}"), what=cfg["field"], cached=cfg["depth"] < 2)
        if other or cfg["field"] == "key":
            return  # another definition's expression; keys are taken literally
        if not parseable(text):
            sx.reach("unparseable")
            sx.check(not isinstance(out, tuple) or kind == "Workflow" or cfg["field"] in ("rf.overlay", "rf.skipif", "rf.overlayinputs"),
                     "unparseable-prepared", lambda: f"{cfg['field']} {text!r}")
        elif isinstance(out, tuple):
            sx.reach("parsed")

    run(body())


_PARSED = {}


def parseable(text):
    if text not in _PARSED:
        try:
            celpy.Environment().compile(text)
            _PARSED[text] = True
        except Exception:
            _PARSED[text] = False
    return _PARSED[text]


def source(sx, cfg):
    """Every expression of n characters, whatever they are."""

    async def body():
        kind, build, *_ = FIELDS[cfg["field"]]
        await world(kind)
        text = sx.chars("e", cfg["n"], exclude="=" if cfg.get("n") else "")
        pre, post = cfg.get("around", ("=", ""))
        await judge(sx, kind, build(pre + text + post), what=cfg["field"], cached=False)

    run(body())


def names(sx, cfg):
    """Names that are looked up or turned into API classes: any characters."""

    async def body():
        f = cfg["field"]
        await world({"apiVersion": "ResourceFunction", "kind": "ResourceFunction", "plural": "ResourceFunction", "overlayRef": "ResourceFunction",
                     "functionRef": "FunctionTest", "template": "ResourceTemplate"}.get(f, "Workflow"))
        n = sx.choice("len", (0, 1, 2, 3))
        text = sx.chars("n", n) if n else ""
        if f in ("apiVersion", "kind", "plural"):
            kind, spec = "ResourceFunction", rf(api={f: text})
            if sx.flag("core"):
                spec["apiConfig"]["apiVersion"] = text + "/v1" if f == "apiVersion" else "apps/v1"
            spec["apiConfig"].pop("plural", None) if f != "plural" and sx.flag("lookup") else None
        elif f == "overlayRef":
            kind, spec = "ResourceFunction", rf(overlays=[{"overlayRef": {"kind": "ValueFunction", "name": text}}])
        elif f in ("ref", "refkind"):
            kind, spec = "Workflow", wf(ref={"kind": text if f == "refkind" else "Workflow", "name": text if f == "ref" else "x"})
        elif f == "label":
            kind, spec = "Workflow", wf()
            spec["steps"][1]["label"] = "one" + text if sx.flag("like one") else text
        elif f == "case":
            kind, spec = "Workflow", wf(ref=None, refSwitch={"switchOn": "=parent.x", "cases": [
                {"case": text, "kind": "ValueFunction", "name": "vf"}, {"case": "a", "kind": "ValueFunction", "name": text, "default": True}]})
        elif f == "inputKey":
            kind, spec = "Workflow", wf(forEach={"itemIn": "=[1]", "inputKey": text})
        elif f == "functionRef":
            kind, spec = "FunctionTest", {"functionRef": {"kind": "ValueFunction", "name": text}, "testCases": [{"label": text, "expectReturn": {"a": 1}}]}
        elif f == "template":
            kind, spec = "ResourceTemplate", {"template": {"apiVersion": text, "kind": text}}
        await judge(sx, kind, spec, what=f, cached=False)
        if f in ("apiVersion", "kind", "plural"):  # an unrelated definition is none the worse for it
            after = rf(api={"apiVersion": "later.dev/v1", "kind": "Later", "plural": "laters"})
            out = await judge(sx, "ResourceFunction", after, what=f"after odd {f}", cached=False)
            sx.check(isinstance(out, tuple), "later-definition-fails", lambda: f"after {deepcopy_plain(spec)!r}: {out!r}")

    run(body())


NAME_FIELDS = ("apiVersion", "kind", "plural", "overlayRef", "ref", "refkind", "label", "case", "inputKey", "functionRef", "template")
AROUND = (("='", "'"), ('="', '"'), ("=a.", ""), ("=a[", "]"), ("=a ", " b"))

HARNESSES = [
    Harness("expressions", expressions,
            quick=[dict(field=f, depth=1) for f in FIELDS],
            thorough=[dict(field="vf.return", depth=2)] + [dict(field=f, depth=2) for f in FIELDS],
            reach=("prepared", "unparseable", "parsed"),
            bounds="26 expression-bearing fields; grammar of 25 atoms and 44 forms nested to depth 1 (thorough 2)"),
    Harness("source", source,
            quick=[dict(field="vf.return", n=1), dict(field="vf.return", n=2), dict(field="wf.inputs", n=1), dict(field="rf.name", n=1), dict(field="vf.assert", n=1)]
            + [dict(field="vf.return", n=1, around=a) for a in AROUND],
            thorough=[dict(field=f, n=1) for f in FIELDS] + [dict(field="vf.return", n=3), dict(field="wf.inputs", n=2), dict(field="vf.assert", n=2)]
            + [dict(field="vf.return", n=2, around=a) for a in AROUND],
            reach=("prepared", "failed"),
            bounds="expression texts of 1..2 (thorough 3) symbolic characters, alone and inside quotes, indexes and member accesses"),
    Harness("names", names, quick=[dict(field=f) for f in NAME_FIELDS],
            reach=("prepared", "rejected", "failed"),
            bounds="names of 0..3 symbolic characters in 11 positions (API group, version, kind, plural, references, labels, cases)"),
    Harness("anything", anything, quick=[dict(kind=k) for k in KINDS], thorough=[dict(kind=k, deep=True) for k in KINDS], reach=("rejected",),
            bounds="whole spec: any JSON value up to depth 2 with one (thorough two) of the kind's top-level fields"),
    Harness("shapes", shapes, quick=[dict(base=b) for b in FULL], thorough=[dict(base=b, all=True) for b in FULL] + [dict(base=b, two=True) for b in FULL],
            reach=("prepared", "rejected", "failed"),
            bounds="complete definitions of every kind with one (thorough two) deviations at any path: 20 (thorough 38) JSON values, symbolic ints/texts, deleted, extra and repeated parts"),
]
