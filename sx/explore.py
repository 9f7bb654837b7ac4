"""Path exploration: run, ask z3 for every unexplored side, repeat."""
from __future__ import annotations

import os
import signal
import sys
import time
import traceback

from . import core
from .core import ENGINE, PathEnd, Violated
from .provider import SymProvider
from .terms import to_z3

z3 = core.z3


class Stats(dict):
    def add(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v
            elif isinstance(v, set):
                self.setdefault(k, set()).update(v)


def new_stats():
    return Stats(
        paths=0, queries=0, solved=0, cached=0, sat=0, unsat=0, unknown=0, solver_s=0.0, branches=0,
        asserts=0, ended=0, pins=0, diverged=0, errors=0, tags=set(), funcs=set(),
    )


_seen_codes = set()


def _watch_functions(funcs):
    """Which koreo functions actually run (for the evidence)."""
    mon = sys.monitoring
    tool = 3
    src = os.path.realpath(os.environ.get("KOREO_SRC", "/repo/src"))
    try:
        mon.use_tool_id(tool, "sx")
    except ValueError:
        return

    def on_start(code, offset):
        fn = code.co_filename
        if fn.startswith(src):
            mod = fn[len(src) + 1 :].removesuffix(".py").replace("/", ".")
            _seen_codes.add(f"{mod}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


HANG_S = 20.0  # of processor time


class Watchdog:
    """A path that does not come to an end is a violation named "hang"."""

    def __enter__(self):
        self.barked = False

        def bark(signum, frame):
            self.barked = True
            raise Violated(None, "hang", f"no result after {HANG_S:.0f} s of processor time")

        self.old = signal.signal(signal.SIGPROF, bark)
        signal.setitimer(signal.ITIMER_PROF, HANG_S, 2.0)
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


def run_path(prop, harness, cfg, model, prefix):
    sx = SymProvider(prop)
    ENGINE.reset(model, prefix)
    ENGINE.active = True
    status, info = "ok", None
    dog = Watchdog()
    try:
        with dog:
            harness(sx, cfg)
    except PathEnd:
        status = "end"
    except Violated as v:
        status, info = "violated", v
    except BaseException as err:  # noqa: harness/engine fault
        if isinstance(err, (KeyboardInterrupt, SystemExit)):
            raise
        status, info = "error", "".join(traceback.format_exception(err))[-4000:]
    finally:
        ENGINE.active = False
    if dog.barked:
        status, info = "violated", Violated(None, "hang", f"no result after {HANG_S:.0f} s of processor time")
    return sx, status, info


_ANSWERS = {}
_ran = 0


def _ask(conds, negated, stats, timeout_ms):
    """Is `conds` and not `negated` satisfiable?  -> model dict | None | "unknown".
    Identical questions are answered once."""
    key = (frozenset([id(c) for c in conds]), id(negated))
    stats["queries"] += 1
    hit = _ANSWERS.get(key, 0)
    if hit != 0:
        stats["cached"] += 1
    else:
        t0 = time.perf_counter()
        solver = z3.SimpleSolver()
        solver.set("timeout", timeout_ms)
        for c in conds:
            solver.add(to_z3(c))
        solver.add(z3.Not(to_z3(negated)))
        r = solver.check()
        if r == z3.sat:
            m = solver.model()
            hit = {}
            for d in m.decls():
                if d.arity() == 0 and z3.is_int_value(m[d]):
                    hit[d.name()] = m[d].as_long()
        else:
            hit = None if r == z3.unsat else "unknown"
        stats["solver_s"] += time.perf_counter() - t0
        stats["solved"] += 1
        _ANSWERS[key] = hit
    stats["unsat" if hit is None else "unknown" if hit == "unknown" else "sat"] += 1
    return hit


def expand(path, prefix, model, stats, query_timeout_ms=10000):
    """Models for every feasible path that leaves this one at index >= prefix.

    Only the part of the path condition that shares variables with the negated
    branch is sent to the solver (the rest stays satisfied by the current model)."""
    if len(_ANSWERS) > 400000:
        _ANSWERS.clear()
    children = []
    group = {}  # variable -> [variables], [conds] shared object
    for i, (cond, flippable) in enumerate(path):
        names = cond.vars
        touched = []
        for n in names:
            g = group.get(n)
            if g is not None and not any(g is t for t in touched):
                touched.append(g)
        if i >= prefix and flippable:
            rel = [c for g in touched for c in g[1]]
            hit = _ask(rel, cond, stats, query_timeout_ms)
            if isinstance(hit, dict):
                child = dict(model)
                child.update(hit)
                children.append((child, i + 1))
        if touched:
            g = touched[0]
            for t in touched[1:]:
                g[0].update(t[0])
                g[1].extend(t[1])
                for n in t[0]:
                    group[n] = g
        else:
            g = (set(), [])
        for n in names:
            g[0].add(n)
            group[n] = g
        g[1].append(cond)
    return children


def explore_slice(prop, harness, cfg, frontier, slice_s, validate_every=0, cap_violations=3):
    """Depth-first over `frontier` for about slice_s seconds."""
    global _ran
    stats = new_stats()
    violations, errors, samples, traces = [], [], [], []
    end = time.perf_counter() + slice_s
    stack = list(frontier)
    while stack:
        model, prefix = stack.pop()
        sx, status, info = run_path(prop, harness, cfg, model, prefix)
        stats["paths"] += 1
        stats["branches"] += len(ENGINE.path)
        stats["asserts"] += sx.checks
        stats["pins"] += ENGINE.pins
        stats["tags"] |= sx.tags
        full_model = dict(ENGINE.model)
        if len(ENGINE.path) < prefix:
            stats["diverged"] += 1
        if status == "end":
            stats["ended"] += 1
        elif status == "violated":
            violations.append(
                dict(key=info.message, detail=_short(info.detail), model=full_model, sample=sx.sample)
            )
        elif status == "error":
            stats["errors"] += 1
            if len(errors) < 3:
                errors.append(dict(error=info, model=full_model))
        elif len(samples) < 3 and sx.sample:
            samples.append(dict(sx.sample, path_condition=[_cond(c) for c, _ in ENGINE.path[:12]]))
        _ran += 1
        if status == "ok" and validate_every and _ran % validate_every == 0:
            traces.append(dict(model=full_model, trace=sx.trace, tags=sorted(sx.tags)))
        path = ENGINE.path
        stack.extend(expand(path, prefix, full_model, stats))
        if len(violations) >= cap_violations or time.perf_counter() > end:
            break
    stats["funcs"] = set(_seen_codes)
    return stats, violations, errors, samples, traces, stack


def _cond(c):
    s = repr(c).replace("\n", " ")
    return s if len(s) < 120 else s[:117] + "..."


def _short(x, n=3000):
    s = x if isinstance(x, str) else repr(core.deepcopy_plain(x))
    return s if len(s) <= n else s[:n] + "…"
