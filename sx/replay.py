"""Replays models on uninstrumented koreo.

  python -m sx.replay FILE          one counterexample, human readable; exit 1 if
                                    the violation reproduces
  python -m sx.replay --batch PROP  jobs as JSON on stdin, results on stdout
"""
from __future__ import annotations

import json
import sys
import traceback


def run_job(mod, prop, job):
    from .core import PathEnd, Violated, deepcopy_plain
    from .explore import Watchdog, _short
    from .provider import ConcreteProvider

    h = next(h for h in mod.HARNESSES if h.name == job["harness"])
    sx = ConcreteProvider(prop, {k: int(v) for k, v in job["model"].items()})
    dog = Watchdog()
    res = _run_job(sx, h, job, dog)
    if dog.barked:
        return dict(status="violated", key="hang", detail="no result", sample=sx.sample)
    return res


def _run_job(sx, h, job, dog):
    from .core import PathEnd, Violated
    from .explore import _short

    try:
        with dog:
            h.fn(sx, job["cfg"])
        return dict(status="ok", trace=sx.trace, tags=sorted(sx.tags))
    except PathEnd:
        return dict(status="end", trace=sx.trace)
    except Violated as v:
        return dict(status="violated", key=v.message, detail=_short(v.detail), sample=sx.sample)
    except BaseException as err:
        return dict(status="error", kind=type(err).__name__, error="".join(traceback.format_exception(err))[-3000:])


def main():
    from .main import load

    if sys.argv[1] == "--batch":
        prop = sys.argv[2]
        jobs = json.loads(sys.stdin.read())
        real = sys.stdout
        sys.stdout = sys.stderr
        mod = load(prop, False)
        out = [run_job(mod, prop, j) for j in jobs]
        sys.stdout = real
        print(json.dumps(out, default=str))
        return 0
    body = json.load(open(sys.argv[1]))
    mod = load(body["property"], False)
    res = run_job(mod, body["property"], body)
    print(json.dumps(res, indent=1, default=str))
    return 1 if res["status"] == "violated" or f"unexpected:{res.get('kind')}" == body.get("key") else 0


if __name__ == "__main__":
    sys.exit(main())
