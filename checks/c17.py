"""C17: the subscription registry against a model of edges and queues."""
import asyncio

from sx.main import Harness

from checks.lib import *


class KindA:
    pass


class KindB:
    pass


R = registry.Resource
UNIVERSE = (R(resource_type=KindA, name="x"), R(resource_type=KindB, name="x"),
            R(resource_type=KindA, name="x", namespace="other"), R(resource_type=KindA, name="y"), R(resource_type=KindB, name="y"))


def label(r):
    return f"{r.resource_type.__name__}/{r.namespace + '/' if r.namespace else ''}{r.name}"


def queue_events(q):
    return [i for i in q._queue]


class World:
    """The registry as it should be."""

    def __init__(self, sx, universe):
        self.sx = sx
        self.u = universe
        self.edges = set()  # (subscriber, resource)
        self.queue = {}  # resource -> queue
        self.killed = set()
        self.history = []

    def say(self):
        return f"after {self.history}"

    def reaches(self, start, goal):
        seen, todo = set(), [start]
        while todo:
            r = todo.pop()
            if r == goal:
                return True
            if r not in seen:
                seen.add(r)
                todo += [b for a, b in self.edges if a == r]
        return False

    def contents(self):
        """Per resource, the events in its queue (Kill markers left out)."""
        return {r: [e for e in queue_events(q) if not isinstance(e, registry.Kill)] for r, q in self.queue.items()}

    def delivered(self, before, notifier, when, optional=False, but=None):
        """Each live subscriber's queue grew by one event, no other changed."""
        sx, after = self.sx, self.contents()
        grew = 0
        expected = 0
        for r, q in self.queue.items():
            if r == but:
                continue
            was, now = before.get(r, []), after[r]
            new = list(now)
            for e in was:
                i = next((i for i, x in enumerate(new) if x is e), None)
                sx.check(i is not None, "event-lost", lambda: f"{label(r)} lost an event {self.say()}")
                new.pop(i)
            live = (r, notifier) in self.edges and r not in self.killed
            full = q.maxsize and len(was) >= q.maxsize
            if live and not full:
                expected += 1
                grew += len(new)
                sx.check(len(new) == 1 or (optional and not new), "delivered-once", lambda: f"{label(r)} received {len(new)} events of {label(notifier)} {self.say()}")
                if new:
                    sx.check(new[0].resource == notifier, "delivered-what", lambda: f"{new} {self.say()}")
                    if when is not None:
                        sx.check(new[0].event_time == when, "delivered-when", lambda: f"{new} {self.say()}")
                sx.reach("delivered")
            else:
                sx.check(not new, "delivered-elsewhere", lambda: f"{label(r)} received {new} {self.say()}")
                if live:
                    sx.reach("full")
                elif (r, notifier) in self.edges:
                    sx.reach("notify-killed")
        if optional:
            sx.check(grew in (0, expected), "delivered-some", self.say)

    def consistent(self):
        sx = self.sx
        for r in self.u:
            subs = guarded(sx, "crash", registry.get_subscriptions, r)
            wat = guarded(sx, "crash", registry.get_subscribers, r)
            sx.check(set(subs) == {b for a, b in self.edges if a == r}, "subscriptions",
                     lambda: f"{label(r)} subscribes to {sorted(map(label, subs))} {self.say()}")
            sx.check(set(wat) == {a for a, b in self.edges if b == r}, "subscribers",
                     lambda: f"{label(r)} is watched by {sorted(map(label, wat))} {self.say()}")

    # operations -------------------------------------------------------
    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k), False
        except registry.SubscriptionCycle:
            return None, True
        except (PathEnd, Violated):
            raise
        except Exception as err:
            self.sx.fail("crash", f"{getattr(fn, '__name__', fn)} raised {type(err).__name__}: {err} {self.say()}")

    def op_register(self, r, queue=None):
        self.history.append(f"register {label(r)}")
        before = self.contents()
        was = self.queue.get(r)
        q, cycle = self.call(registry.register, r, **({"queue": queue} if queue is not None else {}))
        self.sx.check(q is not None, "register", self.say)
        if was is not None and r not in self.killed:
            self.sx.check(q is was, "register-again", self.say)
            self.sx.reach("register-again")
        elif was is None:
            if queue is not None:
                self.sx.check(q is queue, "register-own-queue", self.say)
            self.queue[r] = q
            before[r] = []
        elif q is not was:  # a killed queue replaced
            self.queue[r] = q
            self.killed.discard(r)
            before[r] = []
        self.delivered(before, r, None, optional=was is not None)

    def op_subscribe(self, a, b):
        self.history.append(f"{label(a)} subscribes to {label(b)}")
        before = self.contents()
        closes = self.reaches(b, a)
        _, refused = self.call(registry.subscribe, subscriber=a, resource=b)
        self.sx.check(refused == closes, "cycle-refused", lambda: f"refused={refused} {self.say()}")
        if not refused:
            self.edges.add((a, b))
        self.sx.reach("refused" if refused else "subscribed")
        self.quiet(before)

    def op_only(self, a, bs):
        self.history.append(f"{label(a)} subscribes only to {list(map(label, bs))}")
        before = self.contents()
        closes = any(self.reaches(b, a) for b in bs)
        _, refused = self.call(registry.subscribe_only_to, subscriber=a, resources=list(bs))
        self.sx.check(refused == closes, "cycle-refused", lambda: f"refused={refused} {self.say()}")
        if not refused:
            self.edges = {e for e in self.edges if e[0] != a} | {(a, b) for b in bs}
        self.sx.reach("only-refused" if refused else "only")
        self.quiet(before)

    def op_unsubscribe(self, a, b):
        self.history.append(f"{label(a)} unsubscribes from {label(b)}")
        before = self.contents()
        if (a, b) in self.edges:
            self.call(registry.unsubscribe, unsubscriber=a, resource=b)
            self.edges.discard((a, b))
            self.sx.reach("unsubscribed")
        else:  # whether a redundant one is an error is not stated; it changes nothing
            try:
                registry.unsubscribe(unsubscriber=a, resource=b)
            except (KeyError, ValueError):
                pass
            self.sx.reach("unsubscribe-redundant")
        self.quiet(before)

    def op_notify(self, r, when):
        self.history.append(f"notify {label(r)}")
        before = self.contents()
        self.call(registry.notify_subscribers, notifier=r, event_time=when)
        self.delivered(before, r, when)

    def op_kill(self, r):
        self.history.append(f"kill {label(r)}")
        before = self.contents()
        self.call(registry.kill_resource, resource=r)
        if r in self.queue:
            self.killed.add(r)
            self.sx.reach("killed")
        before.pop(r, None)
        self.quiet(before, but=r)

    def op_deregister(self, r, when):
        self.history.append(f"deregister {label(r)}")
        before = self.contents()
        was = self.queue.pop(r, None)
        self.call(registry.deregister, deregisterer=r, deregistered_at=when)
        self.edges = {e for e in self.edges if e[0] != r}
        self.killed.discard(r)
        before.pop(r, None)
        self.delivered(before, r, when, optional=was is None)
        if was is not None:
            self.sx.check(was.empty(), "drained", self.say)
            self.sx.reach("deregistered")

    def quiet(self, before, but=None):
        after = self.contents()
        for r in self.queue:
            if r != but:
                self.sx.check(len(after[r]) == len(before.get(r, [])), "delivered-elsewhere", lambda: f"{label(r)} {self.say()}")

    def step(self, i, ops):
        sx, u = self.sx, self.u
        op = sx.choice(f"op{i}", ops)
        if op in ("subscribe", "unsubscribe"):
            a = sx.choice(f"a{i}", u)
            b = sx.choice(f"b{i}", u)
            getattr(self, f"op_{op}")(a, b)
        elif op == "only":
            a = sx.choice(f"a{i}", u)
            bs = [r for j, r in enumerate(u) if sx.flag(f"only{i}.{j}")]
            if bs and sx.flag(f"twice{i}"):
                bs.append(bs[0])
            self.op_only(a, bs)
        elif op == "register":
            self.op_register(sx.choice(f"a{i}", u), asyncio.Queue(maxsize=1) if sx.flag(f"own{i}") else None)
        elif op == "kill":
            self.op_kill(sx.choice(f"a{i}", u))
        else:
            getattr(self, f"op_{op}")(sx.choice(f"a{i}", u), sx.int(f"when{i}"))
        self.consistent()


OPS = ("register", "subscribe", "only", "unsubscribe", "notify", "kill", "deregister")


def any_state(sx, cfg):
    """Any acyclic graph, any queue states, then operations."""

    async def body():
        fresh()
        u = UNIVERSE[: cfg["n"]]
        w = World(sx, u)
        for i, a in enumerate(u):
            for j, b in enumerate(u):
                if i < j and sx.flag(f"edge{i}{j}"):
                    w.edges.add((a, b))
                    registry.subscribe(subscriber=a, resource=b)
        for i, r in enumerate(u):
            state = sx.choice(f"queue{i}", cfg.get("states", ("none", "live", "killed", "bounded")))
            if state != "none":
                w.op_register(r, asyncio.Queue(maxsize=1) if state == "bounded" else None)
            if state == "killed":
                w.op_kill(r)
        w.history.insert(0, f"edges {sorted((label(a), label(b)) for a, b in w.edges)}")
        w.consistent()
        for i in range(cfg["ops"]):
            w.step(i, cfg.get("kinds", OPS))
        sx.note(history=w.history)
        sx.observe(sorted((label(a), label(b)) for a, b in w.edges), sorted((label(r), len(v)) for r, v in w.contents().items()))

    run(body())


def histories(sx, cfg):
    async def body():
        fresh()
        w = World(sx, UNIVERSE[: cfg["n"]])
        for i in range(cfg["ops"]):
            w.step(i, cfg.get("kinds", OPS))
        sx.note(history=w.history)
        sx.observe(sorted((label(a), label(b)) for a, b in w.edges), sorted((label(r), len(v)) for r, v in w.contents().items()))

    run(body())


def release(sx, cfg):
    """Deregistering releases whatever waits on the queue."""

    async def body():
        fresh()
        me, dep, watcher = UNIVERSE[:3]
        w = World(sx, UNIVERSE[:3])
        bounded = sx.choice("queue", (None, 1, 2))
        q0 = asyncio.Queue(maxsize=bounded) if bounded else None
        w.op_subscribe(me, dep)
        if sx.flag("watched"):
            w.op_register(watcher)
            w.op_subscribe(watcher, me)
        w.op_register(me, q0)
        q = w.queue[me]
        for i in range(sx.choice("pending", (0, 1, 2))):
            w.op_notify(dep, i)
        done = []
        tasks = []

        async def wait(kind):
            try:
                if kind == "get":
                    await q.get()
                    q.task_done()
                elif kind == "put":
                    await q.put(registry.ResourceEvent(resource=dep, event_time=9))
                else:
                    await q.join()
            except asyncio.QueueShutDown:
                pass
            done.append(kind)

        kinds = [k for k in ("join", "put", "get") if sx.flag(f"wait-{k}")]
        if "get" in kinds and sx.flag("two-getters"):
            kinds.append("get")
        killed_first = sx.flag("kill-first")
        early = sx.choice("turns", (0, 1, 3))
        for k in kinds:
            tasks.append(asyncio.ensure_future(wait(k)))
        for _ in range(early):
            await asyncio.sleep(0)
        if killed_first:
            w.call(registry.kill_resource, resource=me)
            w.history.append("kill")
            for _ in range(sx.choice("turns-killed", (0, 2))):
                await asyncio.sleep(0)
        w.history.append(f"waiting {kinds}, deregister")
        w.call(registry.deregister, deregisterer=me, deregistered_at=5)
        for _ in range(12):
            await asyncio.sleep(0)
        sx.check(len(done) == len(kinds), "released", lambda: f"of {kinds} only {done} were released {w.say()}")
        for t in tasks:
            t.cancel()
        sx.check(registry.get_subscriptions(me) == set(), "subscriptions", w.say)
        if kinds:
            sx.reach("released")
        if killed_first and kinds:
            sx.reach("released-killed")
        sx.note(history=w.history)
        sx.observe(sorted(done))

    run(body())


HARNESSES = [
    Harness("any_state", any_state,
            quick=[dict(n=3, ops=1), dict(n=2, ops=2)],
            thorough=[dict(n=4, ops=1, states=("none", "live", "killed")), dict(n=3, ops=2, states=("none", "live", "killed")), dict(n=2, ops=3)],
            reach=("delivered", "full", "notify-killed", "register-again", "refused", "subscribed", "only", "only-refused", "unsubscribed", "unsubscribe-redundant", "killed", "deregistered"),
            bounds="every acyclic graph over 3 resources (thorough 4) that differ by kind or namespace, each with no/live/killed/bounded queue; then every sequence of 1-2 (thorough 1-3) operations with any arguments, and symbolic event times"),
    Harness("histories", histories,
            quick=[dict(n=2, ops=3), dict(n=3, ops=3, kinds=("subscribe", "only")), dict(n=2, ops=4, kinds=("register", "subscribe", "notify", "kill", "deregister"))],
            thorough=[dict(n=3, ops=3), dict(n=2, ops=4), dict(n=3, ops=4, kinds=("subscribe", "unsubscribe", "deregister", "register")), dict(n=2, ops=5, kinds=("register", "subscribe", "notify", "kill", "deregister"))],
            reach=("delivered", "refused", "subscribed", "only", "only-refused", "unsubscribed", "unsubscribe-redundant", "killed", "deregistered", "notify-killed", "register-again"),
            bounds="every history of 3-4 (thorough 3-5) operations from the empty registry over 2-3 resources"),
    Harness("release", release, quick=[dict()], thorough=[dict()],
            reach=("released", "released-killed"),
            bounds="getters, a putter and a joiner in any combination on the default or a bounded (1, 2) queue with 0-2 pending events; 0, 1 or 3 turns before; killed before or not"),
]
