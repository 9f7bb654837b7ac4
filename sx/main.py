"""Runs one property's check: explore symbolically, replay natively, report."""
from __future__ import annotations

import argparse
import random
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STOP = int(os.environ.get("SX_STOP", "12"))  # distinct violations to look for
PY = sys.executable


class Harness:
    """name; function(sx, cfg); configurations per tier; what must be reached
    (vacuity guard); the bounds in words."""

    def __init__(self, name, fn, quick, thorough=None, reach=(), bounds="", assumes=(), weight=1.0,
                 validate=40):
        self.name, self.fn = name, fn
        self.quick = quick if isinstance(quick, list) else [quick]
        self.thorough = self.quick if thorough is None else (thorough if isinstance(thorough, list) else [thorough])
        self.reach, self.bounds, self.assumes = tuple(reach), bounds, tuple(assumes)
        self.weight = weight
        self.validate = validate


def load(prop, symbolic):
    from . import loader

    loader.install(symbolic)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    return mod


_MOD = None
_PROP = None


def _worker_init():
    sys.stdout = open(os.devnull, "w")
    import gc

    gc.freeze()
    from .explore import _watch_functions

    _watch_functions(None)


def _task(args):
    hi, cfg, frontier, slice_s, validate_every = args
    from .explore import explore_slice

    h = _MOD.HARNESSES[hi]
    r = explore_slice(_PROP, h.fn, cfg, frontier, slice_s, validate_every)
    return (hi, cfg, *r)


def known_findings():
    """`finding: property=<id> key=<regex> <what fails>` lines."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append((m[1], m[2], m[3]))
    return out


def native_run(jobs, prop, timeout=600):
    """Run harness+model pairs on uninstrumented koreo in a fresh process."""
    if not jobs:
        return []
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [PY, "-m", "sx.replay", "--batch", prop],
        input=json.dumps(jobs), capture_output=True, text=True, cwd=VERIF, env=env, timeout=timeout,
    )
    if p.returncode != 0:
        raise RuntimeError("native replay failed: " + p.stderr[-3000:])
    return json.loads(p.stdout.splitlines()[-1])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", default=None, help="harness name substring (debugging)")
    ap.add_argument("--cfg", default=None, help="configuration substring (debugging)")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(PY, [PY, "-m", "sx.main", *(argv or sys.argv[1:])])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    global _MOD, _PROP
    _PROP = a.prop
    _MOD = load(a.prop, True)
    from .explore import new_stats

    budget = a.budget or (getattr(_MOD, "BUDGET", {}).get(a.tier) or (100 if a.tier == "quick" else 840))
    deadline = t0 + budget

    hs = [
        (i, h) for i, h in enumerate(_MOD.HARNESSES) if a.only is None or a.only in h.name
    ]
    pool = mp.get_context("fork").Pool(a.jobs, initializer=_worker_init)
    total = {i: new_stats() for i, _ in hs}
    per_cfg_left = {}
    violations, errors, samples, traces = {}, [], [], {}
    queue = []
    for i, h in hs:
        for cfg in (h.quick if a.tier == "quick" else h.thorough):
            if a.cfg and a.cfg not in repr(cfg):
                continue
            queue.append((i, cfg, [({}, 0)], (i, repr(cfg))))
    pending = []
    known = [k for k in known_findings() if k[0] == a.prop]
    truncated = False
    left_n = 0
    rr = 0
    rng = random.Random(seed)
    while queue or pending:
        while queue and len(pending) < a.jobs * 2:
            # take turns between the configurations so that a budget cut is spread;
            # mostly depth first, sometimes elsewhere
            groups = {}
            for k, q in enumerate(queue):
                groups.setdefault(q[3], []).append(k)
            ks = groups[list(groups)[rr % len(groups)]]
            rr += 1
            i, cfg, fr, _ = queue.pop(ks[-1] if rr % 3 else rng.choice(ks))
            ve = _MOD.HARNESSES[i].validate
            pending.append(pool.apply_async(_task, ((i, cfg, fr, 0.4 if len(queue) > a.jobs * 4 else 0.15, ve),)))
        done = [p for p in pending if p.ready()]
        if not done:
            time.sleep(0.002)
            if time.time() > deadline:
                pass
        for p in done:
            pending.remove(p)
            i, cfg, st, vs, errs, sm, tr, left = p.get()
            total[i].add(st)
            for v in vs:
                vl = violations.setdefault((i, v["key"]), [])
                if len(vl) < 8:
                    vl.append(dict(v, cfg=cfg))
            errors.extend(dict(e, harness=_MOD.HARNESSES[i].name, cfg=cfg) for e in errs)
            if len(samples) < 6:
                samples.extend(dict(s, harness=_MOD.HARNESSES[i].name) for s in sm[:1])
            tl = traces.setdefault(i, [])
            if len(tl) < 60:
                tl.extend(dict(t, cfg=cfg) for t in tr)
            if left:
                n = 8
                step = max(1, len(left) // n)
                for s in range(0, len(left), step):
                    queue.append((i, cfg, left[s : s + step], (i, repr(cfg))))
        nviol = sum(1 for i, key in violations if not any(re.fullmatch(k[1], f"{_MOD.HARNESSES[i].name}/{key}") for k in known))
        hung = any(key == "hang" for _, key in violations)
        if time.time() > deadline or nviol >= STOP or hung:
            truncated = bool(queue) or truncated
            left_n = sum(len(q[2]) for q in queue)
            queue = []
    pool.terminate()

    # --- replay every distinct violation on the real code
    confirmed, unconfirmed, known_hits = [], [], []
    for (i, key), vl in violations.items():
        h = _MOD.HARNESSES[i]
        ok = False
        for v in vl[:4]:
            job = dict(harness=h.name, cfg=v["cfg"], model={k: x for k, x in v["model"].items()})
            res = native_run([job], a.prop)[0]
            if res["status"] == "violated":
                ok = True
                v["native"] = res
                break
            v["native"] = res
        if not ok:
            unconfirmed.append((h.name, key, vl[0]))
            continue
        nkey = v["native"]["key"]
        hit = next((k for k in known if re.fullmatch(k[1], f"{h.name}/{nkey}")), None)
        if hit:
            known_hits.append(hit)
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        body = dict(
            property=a.prop, harness=h.name, cfg=v["cfg"], model=v["model"], key=nkey,
            detail=v["native"].get("detail"), sample=v.get("sample"),
        )
        digest = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{a.prop}-{h.name}-{digest}.json")
        with open(path, "w") as fh:
            json.dump(body, fh, indent=1, default=str)
        confirmed.append((h.name, nkey, path, v["native"].get("detail")))

    # --- scenarios that can not even be run: the harness offers valid definitions to
    # public entry points, so an exception that uninstrumented koreo raises as well
    # means that the code no longer does what the property presumes
    if errors and not confirmed:
        picked = {}
        for e in errors:
            picked.setdefault((e["harness"], e["error"].strip().splitlines()[-1][:60]), e)
        picked = list(picked.values())[:6]
        res = native_run([dict(harness=e["harness"], cfg=e["cfg"], model=e["model"]) for e in picked], a.prop)
        for e, r in zip(picked, res):
            if r["status"] != "error" or r["kind"] not in e["error"]:
                continue
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            body = dict(property=a.prop, harness=e["harness"], cfg=e["cfg"], model=e["model"], key=f"unexpected:{r['kind']}", detail=r["error"])
            digest = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{a.prop}-{e['harness']}-{digest}.json")
            json.dump(body, open(path, "w"), indent=1, default=str)
            confirmed.append((e["harness"], body["key"], path, r["error"][-800:]))

    # --- validate the encoding: passing paths behave the same natively
    validated = mismatches = 0
    mism = []
    jobs = []
    for i, tl in traces.items():
        for t in tl[:40]:
            jobs.append((t, dict(harness=_MOD.HARNESSES[i].name, cfg=t["cfg"], model=t["model"])))
    if jobs:
        res = native_run([j for _, j in jobs], a.prop)
        for (t, j), r in zip(jobs, res):
            if r["status"] == "ok" and r["trace"] == t["trace"]:
                validated += 1
            elif r["status"] == "violated":
                # a concrete failure that the symbolic run missed is real
                hit = next((k for k in known if re.fullmatch(k[1], f"{j['harness']}/{r['key']}")), None)
                if hit:
                    known_hits.append(hit)
                    continue
                body = dict(property=a.prop, key=r["key"], detail=r.get("detail"), **j)
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                digest = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
                path = os.path.join(VERIF, "replays", f"{a.prop}-{j['harness']}-{digest}.json")
                json.dump(body, open(path, "w"), indent=1, default=str)
                confirmed.append((j["harness"], r["key"], path, r.get("detail")))
            else:
                mismatches += 1
                mism.append((j, t["trace"], r))

    # --- vacuity: every harness must assert and reach its witnesses
    vacuous = []
    for i, h in hs:
        if total[i]["asserts"] == 0:
            vacuous.append(f"{h.name}: no assertion was reached")
        missing = set(h.reach) - total[i]["tags"]
        if missing and not truncated:
            vacuous.append(f"{h.name}: never reached {sorted(missing)}")

    agg = new_stats()
    for st in total.values():
        agg.add(st)
    wall = round(time.time() - t0, 2)
    evidence = dict(
        property=a.prop, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=agg["paths"], transitions=agg["branches"],
            traces_validated_against_impl=validated,
            samples=samples[:6] or [dict(note="no sample")],
            exhaustive=not truncated and not agg["unknown"] and not agg["pins"],
            explanation=(
                "states = feasible path equivalence classes executed (each covers every input "
                "satisfying its path condition); transitions = solver-decided branch conditions"
            ),
            harnesses=[
                dict(
                    name=h.name, paths=total[i]["paths"], assertions=total[i]["asserts"],
                    queries=total[i]["queries"], unsat=total[i]["unsat"], sat=total[i]["sat"],
                    unknown=total[i]["unknown"], solver_s=round(total[i]["solver_s"], 2),
                    concretised=total[i]["pins"], bounds=h.bounds,
                    reached=sorted(total[i]["tags"]),
                )
                for i, h in hs
            ],
            queries_discharged=agg["unsat"] + agg["sat"], queries_unknown=agg["unknown"], queries_solved_afresh=agg["solved"], queries_answered_from_cache=agg["cached"],
            solver_s=round(agg["solver_s"], 2), frontier_left=left_n if truncated else 0,
            functions_encoded=sorted(agg["funcs"]), native_mismatches=mismatches,
        ),
        assumptions=sorted({x for _, h in hs for x in h.assumes} | set(getattr(_MOD, "ASSUMES", ()))),
        wall_s=wall, violations=len(confirmed),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)

    for k in sorted(set(known_hits)):
        print(f"KNOWN-FINDING: property={k[0]} {k[2]}")
    for h in evidence["coverage"]["harnesses"]:
        print(
            f"{a.prop} {h['name']}: {h['paths']} paths, {h['assertions']} assertions, "
            f"{h['queries']} queries ({h['unsat']} unsat, {h['unknown']} unknown), {h['solver_s']}s solver, {h['concretised']} concretised"
            + (f" reached={h['reached']}" if a.v else "")
        )
    print(f"{a.prop} wall {wall}s, natively validated {validated}, mismatches {mismatches}"
          + (f", budget hit ({left_n} sides unexplored)" if truncated else ", exhausted"))
    if confirmed:
        for name, key, path, detail in confirmed[:5]:
            print(f"  [{name}] {key}: {str(detail)[:1500]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    bad = False
    for name, key, v in unconfirmed[:3]:
        print(f"INCONCLUSIVE: {name}/{key} does not reproduce natively: {v['native']} detail={v['detail']}")
        bad = True
    for e in errors[:3]:
        print(f"ERROR in {e['harness']} cfg={e['cfg']} model={e['model']}: {e['error']}")
        bad = True
    for j, t, r in mism[:3]:
        print(f"MISMATCH {j} symbolic={t} native={r}")
        bad = True
    for v in vacuous:
        print("VACUOUS:", v)
        bad = True
    return 2 if bad else 0


if __name__ == "__main__":
    import sx.main as _m

    sys.exit(_m.main())
