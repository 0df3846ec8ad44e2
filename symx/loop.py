"""A virtual-time asyncio event loop with no selector, driven by the harness."""

from __future__ import annotations

import asyncio
import asyncio.base_events
import heapq
import sys


class Stuck(Exception):
    """The awaited coroutine cannot make progress."""


class VLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, guard=None, start=1000):
        super().__init__()
        self.now = start
        self.guard = guard or (lambda: None)
        self.vtasks = []
        self.errors = []
        self.steps = 0
        self.max_steps = 200000
        core = sys.modules.get("symx.core")
        self.invoke = sys.modules["symx.rewrite"].sx_call if core is not None and core.ENG is not None else lambda f, *a: f(*a)
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._exc)
        self.slow_callback_duration = 1e9

    def _factory(self, loop, coro, **kw):
        t = asyncio.Task(coro, loop=loop, **kw)
        t._log_destroy_pending = False
        self.vtasks.append(t)
        return t

    def _exc(self, loop, ctx):
        self.errors.append(ctx)

    def time(self):
        return self.now

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _check_closed(self):
        pass

    def is_running(self):
        return True

    def close(self):
        pass

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            r = self.invoke(func, *args)
        except Exception as e:  # noqa: BLE001
            fut.set_exception(e)
        else:
            fut.set_result(r)
        return fut

    # -- driving -----------------------------------------------------------
    def _one(self):
        h = self._ready.popleft()
        if h._cancelled:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            raise Stuck("step bound")
        h._run()
        h = None
        self.guard()

    def drain(self, until=None):
        """Run everything that is ready without letting time pass."""
        while self._ready:
            if until is not None and until.done():
                return
            self._one()
        self.guard()

    def _prune(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False

    def next_timer(self):
        self._prune()
        return self._scheduled[0]._when if self._scheduled else None

    def fire_next(self):
        """Advance to the next timer and run what it makes ready."""
        self._prune()
        h = heapq.heappop(self._scheduled)
        h._scheduled = False
        if h._when > self.now:
            self.now = h._when
        self._ready.append(h)
        while True:
            self._prune()
            if not (self._scheduled and self._scheduled[0]._when <= self.now):
                break
            h2 = heapq.heappop(self._scheduled)
            h2._scheduled = False
            self._ready.append(h2)
        self.drain()

    def advance(self, dt):
        end = self.now + dt
        self.drain()
        while True:
            self._prune()
            if not self._scheduled or not (self._scheduled[0]._when <= end):
                break
            self.fire_next()
        self.now = end
        self.drain()

    def run(self, coro, *, timers=True, limit=10000):
        """Run to completion, letting virtual time pass as needed."""
        t = coro if isinstance(coro, asyncio.Future) else self.create_task(coro)
        n = 0
        self.drain(t)
        while not t.done():
            if not timers or self.next_timer() is None or n > limit:
                raise Stuck("coroutine cannot progress")
            n += 1
            self.fire_next()
        return t.result()

    def spawn(self, coro):
        t = self.create_task(coro)
        self.drain()
        return t

    def shutdown(self):
        for t in self.vtasks:
            if not t.done():
                try:
                    t.get_coro().close()
                except BaseException:  # noqa: BLE001
                    pass
        self._ready.clear()
        self._scheduled.clear()
        self.vtasks.clear()


def install(loop):
    asyncio.set_event_loop(loop)
    asyncio._set_running_loop(loop)


def uninstall():
    asyncio._set_running_loop(None)
    asyncio.set_event_loop(None)
