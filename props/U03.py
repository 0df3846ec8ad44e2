"""Retries, shared calls, request bookkeeping and listener dispatch."""

import asyncio

import zigpy.exceptions
import zigpy.util as u
from props import world  # noqa: F401

BOUNDS = ("retries: up to 4 tries, every pattern of outcomes; shared calls: 4 callers, 2 keys, every interleaving of arrival and completion; "
          "chunks: up to 6 elements, chunk sizes 1..7; listeners: 3 listeners, every combination of outcomes; requests: every 8-bit sequence")
OUTSIDE = "cancelling one of several callers that share a call; deeper histories"
REACH = ["retried", "gave_up", "other", "delay", "shared", "separate", "shared_error", "chunks", "request", "duplicate", "listeners", "async_listeners", "catching", "removed"]


class A(Exception):
    pass


class B(Exception):
    pass


def retry(E):
    loop = E.loop()
    tries = 1 + E.choice("tries", 4)
    delay = E.int("delay", 0, 50)
    calls = []
    outcome = []

    async def func():
        calls.append(loop.now)
        k = E.choice("outcome", 3)
        outcome.append(k)
        if k == 1:
            raise A(len(calls))
        if k == 2:
            raise B
        return ("ok", len(calls))

    res = err = None
    how = E.choice("how", 3)
    start = loop.now
    try:
        if how == 0:
            res = loop.run(u.retry(func, (A,), tries=tries, delay=delay))
        elif how == 1:
            res = loop.run(u.retryable((A,), tries=tries, delay=delay)(func)())
        else:
            res = loop.run(u.retryable((A,), tries=tries, delay=delay)(lambda *a, **k: func())(1, x=2))
    except (A, B) as e:
        err = e
    n = len(calls)
    E.check(n <= tries, "called more often than allowed")
    for k in range(n - 1):
        E.check(outcome[k] == 1, "called again after a success or another error")
        E.check(calls[k + 1] - calls[k] == delay, "the pause between tries")
    E.check(calls[0] == start, "the first try is immediate")
    if outcome[-1] == 0:
        E.check(res == ("ok", n), "the result of the successful try is returned")
        if n > 1:
            E.reach("retried")
    elif outcome[-1] == 2:
        E.check(isinstance(err, B), "other errors are not retried")
        E.reach("other")
    else:
        E.check(E.all(isinstance(err, A), n == tries, err is not None and err.args == (n,)), "gives up only after the last try, with its error")
        E.reach("gave_up")
    E.reach("delay")


def retry_request(E):
    """The request flavour retries network errors and timeouts only."""
    loop = E.loop()
    n = []
    exc = E.pick("exc", [zigpy.exceptions.DeliveryError("x"), asyncio.TimeoutError(), zigpy.exceptions.ControllerException("x"), zigpy.exceptions.ParsingError(), ValueError(), KeyError()])
    tries = 2 + E.choice("tries", 3)

    @u.retryable_request(tries=tries, delay=1)
    async def func():
        n.append(1)
        raise exc

    E.check(E.raises(type(exc), loop.run, func()), "the last error is raised")
    again = isinstance(exc, (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError))
    E.check(len(n) == (tries if again else 1), "number of tries")
    E.reach("gave_up" if again else "other")


def shared(E):
    loop = E.loop()
    gates, calls = [], []

    class Host:
        @u.combine_concurrent_calls
        async def go(self, key, extra=1):
            i = len(calls)
            calls.append(key)
            ev = asyncio.Event()
            gates.append(ev)
            await ev.wait()
            if bad[i]:
                raise A(i)
            return ("r", i)

    host = Host()
    bad = [E.bool("bad") for _ in range(5)]
    callers = []

    async def caller(key, style):
        try:
            if style == 0:
                return await host.go(key)
            if style == 1:
                return await host.go(key=key)
            return await host.go(key, extra=1)
        except A as e:
            return ("e", e.args[0])

    running = {}  # key -> index of the call in progress
    expect = []
    k1 = E.bits("key", 4)
    k2 = E.bits("key", 4)
    for _ in range(5):
        if E.choice("op", 2) == 0 and len(callers) < 4:
            key = k2 if E.choice("which", 2) else k1
            t = loop.spawn(caller(key, len(callers) % 3))
            callers.append(t)
            if key in running:
                expect.append(running[key])
                E.reach("shared")
            else:
                running[key] = len(calls) - 1
                expect.append(len(calls) - 1)
                E.reach("separate")
            E.check(calls[expect[-1]] == key, "called with other arguments")
        else:
            open_ = [i for i in running.values()]
            if open_:
                i = open_[0]
                gates[i].set()
                loop.drain()
                running = {k: v for k, v in running.items() if v != i}
    E.check(len(calls) == len(set(expect)), "one call in progress per set of arguments")
    for g in gates:
        g.set()
    loop.drain()
    for t, i in zip(callers, expect):
        E.check(t.done(), "a caller never gets its result")
        if t.done():
            E.check(t.result() == (("e", i) if bad[i] else ("r", i)), "callers get the outcome of the call they shared")
            if bad[i]:
                E.reach("shared_error")


def chunks(E):
    loop = E.loop()
    n = E.choice("n", 7)
    size = 1 + E.choice("size", 7)
    items = [E.bits("x", 8) for _ in range(n)]

    async def collect():
        return [c async for c in u.async_iterate_in_chunks(iter(items), size)]

    got = loop.run(collect())
    E.check([x for c in got for x in c] == items, "every element comes once and in order")
    E.check(E.all(*[len(c) == size for c in got[:-1]], *[0 < len(c) <= size for c in got[-1:]]), "chunk sizes")
    E.reach("chunks")


def requests(E):
    loop = E.loop()
    a, b = E.bits("a", 8), E.bits("b", 8)
    pend = u.Requests()
    how = E.choice("how", 4)
    seen = []

    async def run():
        with pend.new(a) as req:
            seen.append(req)
            E.check(E.all(a in pend, pend[a] is req, req.sequence == a, not req.result.done()), "an open request is listed")
            dup, e = E.attempt(pend.new, b, excs=zigpy.exceptions.ControllerException)
            E.check((e is not None) == (a == b), "a sequence number in use is refused, a free one is not")
            if e is not None:
                E.reach("duplicate")
            if how == 0:
                req.result.set_result(5)
                return await req.result
            if how == 1:
                raise A
            if how == 2:
                return 7

            await asyncio.Event().wait()

    t = loop.create_task(run())
    loop.drain()
    if how == 3:
        E.check(not t.done(), "waits")
        t.cancel()
        loop.drain()
    E.check(E.all(t.done(), len(pend) == 0), "a request stays listed after it ends")
    E.check(E.all(seen[0].result.done(), seen[0].result.cancelled() == (how != 0)), "an abandoned request's result is cancelled")
    if how == 1:
        E.check(isinstance(t.exception(), A), "errors are not swallowed")
    elif how == 3:
        E.check(t.cancelled(), "cancellation is not swallowed")
    else:
        E.check(t.result() == (5, None, 7)[how], "result")
    with pend.new(a):
        pass
    E.reach("request")


class Host(u.ListenableMixin):
    pass


def listeners(E):
    host = Host()
    log = []
    kinds = [E.choice("kind", 4) for _ in range(3)]
    ctx = [E.bool("context") for _ in range(3)]
    objs = []
    x = E.bits("x", 8)

    def make(i):
        class L:
            if kinds[i] != 0:
                def event(self, *args):
                    log.append((i, args))
                    if kinds[i] == 2:
                        raise A
                    if kinds[i] == 3:
                        host.remove_listener(self)
                    return 10 + i

            def __eq__(self, other):  # equal listeners are still different ones
                return True

            __hash__ = object.__hash__
        return L()

    for i in range(3):
        o = make(i)
        objs.append(o)
        (host.add_context_listener if ctx[i] else host.add_listener)(o)
    res = host.listener_event("event", x, "y")
    want = [i for i in range(3) if kinds[i] != 0]
    E.check([l[0] for l in log] == want, "every listener that has a handler is told once, whatever others do")
    for i, args in log:
        E.check(args == ((host, x, "y") if ctx[i] else (x, "y")), "listener arguments")
    E.check(res == [10 + i for i in want if kinds[i] != 2], "results of the listeners that did not fail")
    log.clear()
    host.listener_event("event", x, "y")
    E.check([l[0] for l in log] == [i for i in want if kinds[i] != 3], "a removed listener is told again, or one that stayed is not")
    host.listener_event("nothing")
    gone = E.choice("gone", 3)
    if kinds[gone] != 3:
        host.remove_listener(objs[gone])
    log.clear()
    host.listener_event("event", 1, 2)
    E.check([l[0] for l in log] == [i for i in want if kinds[i] != 3 and i != gone], "removal")
    E.reach("listeners")
    E.reach("removed")


def async_listeners(E):
    loop = E.loop()
    host = Host()
    kinds = [E.choice("kind", 4) for _ in range(3)]
    log = []

    def make(i):
        class L:
            if kinds[i] != 0:
                async def event(self, *args):
                    log.append((i, args))
                    if kinds[i] == 3:
                        await asyncio.sleep(1)
                    if kinds[i] == 2:
                        raise A
                    return 10 + i
        return L()

    for i in range(3):
        host.add_listener(make(i))
    objs = list(host._listeners.values())
    res = loop.run(host.async_event("event", 1))
    E.check(sorted(l[0] for l in log) == [i for i in range(3) if kinds[i]], "every listener is told once")
    E.check(res == [10 + i for i in range(3) if kinds[i] in (1, 3)], "results in order of registration")
    E.reach("async_listeners")


def catching(E):
    """Background tasks swallow their errors and are forgotten when done."""
    loop = E.loop()

    class C(u.CatchingTaskMixin):
        logged = []

        def log(self, *a, **k):
            self.logged.append(a)

    c = C()
    exc = E.pick("exc", [None, asyncio.TimeoutError(), zigpy.exceptions.DeliveryError("x"), ValueError("x"), A()])

    async def work():
        await asyncio.sleep(1)
        if exc is not None:
            raise exc

    n = len(c._tasks)
    c.create_catching_task(work())
    E.check(len(c._tasks) == n + 1, "the task is kept alive")
    loop.advance(2)
    E.check(E.all(len(c._tasks) == n, not loop.errors, loop.vtasks[-1].exception() is None), "errors escape")
    E.reach("catching")


def units(tier):
    return [(n, globals()[n], {}) for n in ("retry", "retry_request", "shared", "chunks", "requests", "listeners", "async_listeners", "catching")]
