"""Virtual-time asyncio event loop: nothing sleeps, the clock jumps to the next
timer.  Timer instants may be symbolic (SymTime): heap order and due-tests then
branch in the solver, so every feasible completion order is a path.

Only the source of time and of readiness differs from asyncio's own loop; tasks,
futures, queues, locks, timeouts and task groups are asyncio's."""
from __future__ import annotations

import asyncio
import heapq
from asyncio import base_events


class Deadlock(Exception):
    pass


class VirtualLoop(base_events.BaseEventLoop):
    def __init__(self, limit=200000):
        super().__init__()
        self._now = 0.0
        self._limit = limit
        self._iters = 0

    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        self._iters += 1
        if self._iters > self._limit:
            raise Deadlock("event loop does not come to rest")
        sched = self._scheduled
        while sched and sched[0]._cancelled:
            self._timer_cancelled_count -= 1
            handle = heapq.heappop(sched)
            handle._scheduled = False
        if not self._ready and not self._stopping:
            if not sched:
                raise Deadlock("every task is blocked and no timer is set")
            if sched[0]._when > self._now:
                self._now = sched[0]._when
        while sched:
            handle = sched[0]
            if handle._cancelled:
                self._timer_cancelled_count -= 1
                heapq.heappop(sched)._scheduled = False
                continue
            if handle._when > self._now:
                break
            handle = heapq.heappop(sched)
            handle._scheduled = False
            self._ready.append(handle)
        for _ in range(len(self._ready)):
            handle = self._ready.popleft()
            if handle._cancelled:
                continue
            handle._run()
        handle = None


def run(coro, limit=200000):
    """Run to completion on a fresh virtual loop; leftovers are cancelled."""
    loop = VirtualLoop(limit)
    asyncio.set_event_loop(loop)
    loop.set_exception_handler(lambda loop, ctx: None)
    try:
        return loop.run_until_complete(coro)
    finally:
        try:
            pending = asyncio.all_tasks(loop)
            for t in pending:
                t.cancel()
            if pending:
                loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
        except BaseException:
            pass
        asyncio.set_event_loop(None)
        loop.close()
