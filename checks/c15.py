"""C15: the cache prepares once per version; the latest offer wins."""
import asyncio

from sx.main import Harness

from checks.lib import *


class KindA:
    pass


class KindB:
    pass


KEYS = ((KindA, "x"), (KindA, "y"), (KindB, "x"))
UNSET = object()


def histories(sx, cfg):
    async def body():
        fresh()
        keys = KEYS[: cfg["keys"]]
        model = {}  # key -> (version, result, spec, system data)
        calls = []
        results = {}

        def preparer_for(key, outcome, subs):
            async def prepare(name, spec):
                calls.append((key, name, copy.deepcopy(spec)))
                made = object()
                spec["mutated"] = True  # its copy to use
                if outcome == "ok":
                    r = made, subs
                    results[len(calls)] = made
                elif outcome == "permfail":
                    r = results[len(calls)] = kr.PermFail(message=f"bad {len(calls)}", location="l")
                else:
                    r = results[len(calls)] = kr.Retry(message=f"later {len(calls)}", delay=1, location="l")
                return r

            return prepare

        history = []
        for i in range(cfg["depth"]):
            key = keys[0] if i == 0 else sx.choice(f"key{i}", keys)
            ops = ("offer",) if i == 0 else ("offer", "delete", "delete-version", "delete-meta")
            op = sx.choice(f"op{i}", cfg.get("ops", ops) if i else ops)
            cls, name = key
            before = len(calls)
            had = model.get(key)
            info = lambda: f"after {history}: calls={len(calls) - before} model={ {(k[0].__name__, k[1]): deepcopy_plain(v[0]) for k, v in model.items()} }"
            if op == "offer":
                version = sx.text(f"v{i}")
                outcome = sx.choice(f"outcome{i}", cfg.get("outcomes", ("ok", "permfail", "retry")))
                subs = None
                if outcome == "ok" and cfg.get("subs"):
                    subs = sx.choice(f"subs{i}", (None, [], [registry.Resource(resource_type=KindB, name="elsewhere")]))
                spec = {"n": i}
                system = {"sys": i} if cfg.get("system") and sx.flag(f"sys{i}") else None
                meta = {"name": name, "resourceVersion": version}
                if cfg.get("labels") and sx.flag(f"labels{i}"):
                    meta["labels"] = {"koreo.dev/active": "true"}
                history.append(f"offer {cls.__name__}/{name} v={deepcopy_plain(version)!r} {outcome}")
                kw = {"_system_data": system} if system else {}
                got = await aguarded(sx, "crash", cache.prepare_and_cache(
                    resource_class=cls, preparer=preparer_for(key, outcome, subs), metadata=meta, spec=spec, **kw))
                if had is not None and had[0] == version:
                    sx.check(len(calls) == before, "prepared-again", info)
                    sx.check(got is had[1], "cached-result", info)
                    sx.reach("hit")
                else:
                    sx.check(len(calls) == before + 1, "not-prepared", info)
                    sx.check(got is results[len(calls)], "result", info)
                    k, nm, sp = calls[-1]
                    sx.check(nm == name and sp == spec, "prepared-what", info)
                    model[key] = (version, got, {"n": i}, system)
                    sx.reach("replaced" if had else "first")
                    if outcome != "ok":
                        sx.reach("failure")
            elif op == "delete":
                history.append(f"delete {cls.__name__}/{name}")
                await aguarded(sx, "crash", cache.delete_from_cache(resource_class=cls, cache_key=name))
                model.pop(key, None)
                sx.reach("delete" if had else "delete-absent")
            elif op == "delete-meta":
                v = sx.text(f"v{i}")
                history.append(f"delete-resource {cls.__name__}/{name}")
                if not (had is not None and had[0] == v):
                    raise PathEnd()  # whether its version guards is not stated
                await aguarded(sx, "crash", cache.delete_resource_from_cache(resource_class=cls, metadata={"name": name, "resourceVersion": v}))
                model.pop(key, None)
                sx.reach("delete-meta")
            else:
                v = sx.text(f"v{i}")
                history.append(f"delete {cls.__name__}/{name} v={deepcopy_plain(v)!r}")
                await aguarded(sx, "crash", cache.delete_from_cache(resource_class=cls, cache_key=name, version=v))
                if had is not None and had[0] == v:
                    model.pop(key)
                    sx.reach("delete-current")
                elif had is not None:
                    sx.reach("delete-stale")
            if op != "offer":
                sx.check(len(calls) == before, "prepared-on-delete", info)
            if cfg.get("turns"):
                for _ in range(sx.choice(f"turns{i}", cfg["turns"])):
                    await asyncio.sleep(0)
            for k in keys:
                got = guarded(sx, "crash", cache.get_resource_from_cache, resource_class=k[0], cache_key=k[1])
                data = guarded(sx, "crash", cache.get_resource_system_data_from_cache, resource_class=k[0], cache_key=k[1])
                want = model.get(k)
                what = lambda: f"{k[0].__name__}/{k[1]} {info()}"
                if want is None:
                    sx.check(got is None and data is None, "lookup-absent", what)
                else:
                    sx.check(got is want[1], "lookup", what)
                    sx.check(data is not None and data.resource is want[1] and data.resource_version == want[0], "lookup-data", what)
                    sx.check(data.spec == want[2] and data.system_data == want[3], "lookup-spec", what)
        sx.note(history=history)
        sx.observe(len(calls), sorted((k[0].__name__, k[1]) for k in model))

    run(body())


HARNESSES = [
    Harness("histories", histories,
            quick=[dict(keys=1, depth=4), dict(keys=1, depth=5, outcomes=("ok",)), dict(keys=2, depth=4, outcomes=("ok", "permfail")), dict(keys=3, depth=3),
                   dict(keys=1, depth=2, subs=True, system=True, labels=True, turns=(0, 1, 3)),
                   dict(keys=1, depth=3, outcomes=("ok", "retry"), ops=("offer", "delete"), subs=True, turns=(0, 3)),
                   dict(keys=1, depth=3, outcomes=("ok", "retry"), ops=("offer", "delete"), system=True, labels=True)],
            thorough=[dict(keys=1, depth=6, outcomes=("ok", "permfail")), dict(keys=2, depth=5, outcomes=("ok", "permfail")), dict(keys=3, depth=4),
                      dict(keys=3, depth=5, outcomes=("ok", "permfail"), ops=("offer", "delete", "delete-version")),
                      dict(keys=1, depth=3, subs=True, system=True, labels=True, turns=(0, 1, 3)),
                      dict(keys=2, depth=4, outcomes=("ok",), subs=True, turns=(0, 3))],
            reach=("hit", "first", "replaced", "failure", "delete", "delete-absent", "delete-current", "delete-stale", "delete-meta"),
            bounds="histories of up to 5 (thorough 6) offers/deletes over up to 3 entries (2 kinds, 2 names); versions are arbitrary texts, so every pattern of equal/different versions is covered; "
                   "preparers succeed, fail permanently or ask to retry"),
]
