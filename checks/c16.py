"""C16: hot reload leaves every cached entry built from current dependencies."""
import asyncio
import itertools
import time

from sx.main import Harness

from checks.lib import *


class KindA:
    pass


class KindB:
    pass


R = registry.Resource
# An entry may depend on later ones; neighbours share a name or a kind.
UNIVERSE = (R(resource_type=KindA, name="x"), R(resource_type=KindB, name="x"),
            R(resource_type=KindA, name="y"), R(resource_type=KindB, name="y"))


class Built:
    def __init__(self, me, gen, saw):
        self.me, self.gen, self.saw = me, gen, saw


def label(r):
    return f"{r.resource_type.__name__}/{r.name}"


class World:
    def __init__(self, sx, cfg):
        self.sx, self.cfg = sx, cfg
        self.u = UNIVERSE[: cfg["n"]]
        self.version = itertools.count(1)
        self.specs = {}  # what is cached: resource -> (version, deps)
        self.history = []
        self.slow = {r: sx.choice(f"slow{i}", cfg["slow"]) if cfg.get("slow") else 0 for i, r in enumerate(self.u)}
        self.running = []
        self.last = {}  # resource -> its operation in progress

    def say(self):
        return f"after {self.history}"

    async def prepare(self, me, spec):
        saw = {}
        half = self.slow[me]
        for _ in range(half):
            await asyncio.sleep(0)
        for j in spec["deps"]:
            saw[j] = cache.get_resource_from_cache(resource_class=self.u[j].resource_type, cache_key=self.u[j].name)
        for _ in range(half):
            await asyncio.sleep(0)
        if spec.get("fails"):
            return kr.PermFail(message="broken", location=label(me))
        return Built(me, spec["n"], saw), [self.u[j] for j in spec["deps"]]

    async def offer(self, r, deps, fails=False, same=False):
        if same:
            version, deps, fails = self.specs[r]
        else:
            version = f"v{next(self.version)}"
        self.history.append(f"offer {label(r)} {version} -> {[label(self.u[j]) for j in deps]}{' fails' if fails else ''}")
        self.specs[r] = (version, deps, fails)

        def preparer(name, spec):
            return self.prepare(r, spec)

        coro = cache.prepare_and_cache(resource_class=r.resource_type, preparer=preparer, metadata={"name": r.name, "resourceVersion": version},
                                       spec={"deps": list(deps), "n": version, "fails": fails})
        await self.launch(r, coro)

    async def launch(self, r, coro):
        """Operations on one resource follow one another; on different ones they may overlap."""
        if not self.cfg.get("background"):
            await aguarded(self.sx, "crash", coro)
            return
        before = self.last.get(r)

        async def op():
            if before is not None:
                await before
            await aguarded(self.sx, "crash", coro)

        self.last[r] = asyncio.ensure_future(op())
        self.running.append(self.last[r])

    async def delete(self, r):
        self.history.append(f"delete {label(r)}")
        self.specs.pop(r, None)
        await self.launch(r, cache.delete_from_cache(resource_class=r.resource_type, cache_key=r.name))

    async def idle(self):
        self.history.append("idle")
        await asyncio.sleep(1000)
        for t in self.running:
            if t.done():
                t.result()
        sx = self.sx
        for i, r in enumerate(self.u):
            got = cache.get_resource_from_cache(resource_class=r.resource_type, cache_key=r.name)
            subs = registry.get_subscriptions(r)
            if r not in self.specs:
                sx.check(got is None, "resurrected", lambda: f"{label(r)} {self.say()}")
                sx.check(not subs, "deleted-watcher", lambda: f"deleted {label(r)} still watches {sorted(map(label, subs))} {self.say()}")
                continue
            version, deps, fails = self.specs[r]
            if fails:
                sx.check(isinstance(got, kr.PermFail), "latest", lambda: f"{label(r)} is {got} {self.say()}")
                sx.check(not subs, "subscriptions", lambda: f"{label(r)} watches {sorted(map(label, subs))} {self.say()}")
                continue
            sx.check(isinstance(got, Built) and got.gen == version, "latest", lambda: f"{label(r)} is {getattr(got, 'gen', got)} {self.say()}")
            sx.check(set(subs) == {self.u[j] for j in deps}, "subscriptions", lambda: f"{label(r)} watches {sorted(map(label, subs))} {self.say()}")
            for j in deps:
                d = self.u[j]
                now = cache.get_resource_from_cache(resource_class=d.resource_type, cache_key=d.name)
                sx.check(got.saw.get(j) is now, "stale", lambda: f"{label(r)} was built from an outdated {label(d)} {self.say()}")
                sx.check(r in registry.get_subscribers(d), "unwatched", lambda: f"{label(d)} not watched by {label(r)} {self.say()}")
        monitors = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        watching = [r for r, (v, deps, fails) in self.specs.items()]
        sx.check(len(monitors) <= len(watching), "task-left", lambda: f"{len(monitors)} background tasks for {len(watching)} entries {self.say()}")

    async def turns(self, i, choices):
        n = self.sx.choice(f"turns{i}", choices)
        if n == "idle":
            await self.idle()
            return
        if n:
            self.history.append(f"{n} turns")
        for _ in range(n):
            await asyncio.sleep(0)


def deps_of(sx, i, key, n, most=2):
    got = [j for j in range(i + 1, n) if sx.flag(f"{key}.{i}{j}")]
    return got


def histories(sx, cfg):
    clock = itertools.count(1000)
    real = time.monotonic
    time.monotonic = lambda: float(next(clock))
    try:
        vloop.run(_histories(sx, cfg), limit=20000)
    except vloop.Deadlock:
        sx.fail("never-idle", "re-preparing does not come to rest")
    finally:
        time.monotonic = real


async def _histories(sx, cfg):
    fresh()
    w = World(sx, cfg)
    n = cfg["n"]
    for i, r in enumerate(w.u):
        deps = [j for j in cfg["graph"].get(str(i), [])] if "graph" in cfg else deps_of(sx, i, "init", n)
        if not cfg.get("absent") or sx.flag(f"present{i}"):
            await w.offer(r, deps)
    await w.idle()
    for k in range(cfg["ops"]):
        op = sx.choice(f"op{k}", cfg.get("kinds", ("offer", "delete")))
        i = sx.choice(f"which{k}", range(n))
        r = w.u[i]
        if op == "offer":
            if cfg.get("redep"):
                deps = deps_of(sx, i, f"deps{k}", n)
            elif "graph" in cfg:
                deps = list(cfg["graph"].get(str(i), []))
            else:
                deps = w.specs[r][1] if r in w.specs else deps_of(sx, i, f"deps{k}", n)
            fails = bool(cfg.get("fails")) and sx.flag(f"fails{k}")
            sx.reach("reoffer" if r in w.specs else "offer-deleted")
            await w.offer(r, deps, fails)
        elif op == "same":
            if r not in w.specs:
                raise PathEnd()
            sx.reach("same")
            await w.offer(r, None, same=True)
        else:
            if r not in w.specs:
                raise PathEnd()
            sx.reach("delete")
            await w.delete(r)
        await w.turns(k, cfg.get("turns", (0, 1, 2, 3, "idle")))
    await w.idle()
    if cfg.get("probe", True):
        for i in reversed(range(n)):
            r = w.u[i]
            w.history.append("probe")
            await w.offer(r, w.specs[r][1] if r in w.specs else [])
            await w.idle()
    sx.reach("probed")
    sx.note(history=w.history)
    sx.observe(sorted((label(r), v[0]) for r, v in w.specs.items()))


CHAIN = {"0": [1], "1": [2]}
DIAMOND = {"0": [1, 2], "1": [3], "2": [3]}

T4 = (0, 1, 2, "idle")

HARNESSES = [
    Harness("histories", histories,
            quick=[dict(n=2, ops=3), dict(n=3, graph=CHAIN, ops=3, turns=T4), dict(n=3, ops=2, absent=True), dict(n=3, ops=2, redep=True), dict(n=2, ops=3, fails=True, turns=(0, 2)),
                   dict(n=2, ops=3, kinds=("offer", "delete", "same"), turns=(0, 2)), dict(n=4, graph=DIAMOND, ops=2)],
            thorough=[dict(n=2, ops=4), dict(n=3, ops=3, graph=CHAIN, turns=(0, 1, 2, 3, 4, "idle")), dict(n=3, ops=4, graph=CHAIN, turns=(0, 2)), dict(n=3, ops=3, redep=True, turns=(0, 2)),
                      dict(n=3, ops=3, absent=True, turns=(0, 1, 2)), dict(n=3, ops=3, fails=True, graph=CHAIN, turns=(0, 1, 2)), dict(n=4, graph=DIAMOND, ops=3, turns=(0, 1, 2, "idle"))],
            reach=("reoffer", "offer-deleted", "delete", "same", "probed"),
            bounds="acyclic dependency graphs over 2-3 resources (all of them) and a diamond of 4; then every history of 2-3 (thorough 3-4) offers (same or changed dependencies, failing preparation, unchanged version) and deletes, "
                   "each followed by 0-3 (thorough 0-4) loop turns or idleness; finally each resource is offered again; strictly increasing clock; preparers do not suspend"),
    Harness("slow", histories,
            quick=[dict(n=2, ops=2, slow=(0, 1)), dict(n=3, graph=CHAIN, ops=2, slow=(0, 1), turns=T4), dict(n=2, ops=2, slow=(0, 1), background=True),
                   dict(n=3, ops=2, graph=CHAIN, slow=(0, 1), background=True, absent=True, turns=(0, 1, "idle"))],
            thorough=[dict(n=2, ops=3, slow=(0, 1)), dict(n=3, ops=2, slow=(0, 1), absent=True, turns=T4), dict(n=3, graph=CHAIN, ops=2, slow=(0, 1, 2), turns=T4), dict(n=2, ops=3, slow=(0, 1), background=True),
                      dict(n=3, ops=3, graph=CHAIN, slow=(0, 1), background=True, turns=(0, 1, 3))],
            reach=("reoffer", "delete", "probed"),
            bounds="as histories, with preparers that suspend before and after reading their dependencies (0-1, thorough 0-2 turns each), awaited one after another or overlapping for different resources"),
]
