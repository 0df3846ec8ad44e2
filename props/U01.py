"""Concurrency limits: the priority semaphore and lock."""

import asyncio

from zigpy.datastructures import PriorityDynamicBoundedSemaphore, PriorityLock
from props import world  # noqa: F401

BOUNDS = ("histories of 5 events (6 thorough) over up to 4 tasks: enter, leave (normally or by an exception), cancel, change the limit between 0 and 3; "
          "with and without letting the loop run between events; priorities are arbitrary integers")
OUTSIDE = "longer histories; more than 4 tasks at once"
REACH = ["granted", "waited", "cancelled", "raised_limit", "order", "lock", "misuse", "undrained"]


class Boom(Exception):
    pass


class Sim:
    def __init__(self, E, sem, loop):
        self.E, self.sem, self.loop = E, sem, loop
        self.tasks, self.state, self.prio, self.ev = [], [], [], []
        self.grants = []

    def start(self, prio):
        i = len(self.tasks)
        self.state.append("waiting")
        self.prio.append(prio)
        self.ev.append(None)
        self.tasks.append(self.loop.create_task(self.body(i, prio)))

    async def body(self, i, prio):
        self.ev[i] = asyncio.Event()
        self.fail = getattr(self, "fail", set())
        ctx = self.sem(priority=prio) if prio is not None else self.sem
        try:
            async with ctx:
                self.state[i] = "holding"
                self.grants.append(i)
                await self.ev[i].wait()
                if i in self.fail:
                    raise Boom
        except (asyncio.CancelledError, Boom):
            pass
        self.state[i] = "done"

    def of(self, st):
        for i, x in enumerate(self.tasks):
            if x.done():
                self.state[i] = "done"  # also when it was cancelled before it ever ran
        return [i for i, s in enumerate(self.state) if s == st]

    def leave(self, i, how):
        if how == "cancel":
            self.tasks[i].cancel()
            return
        if how == "raise":
            self.fail.add(i)
        self.ev[i].set()

    def settled(self):
        """No one waits while there is room, and the limit is respected."""
        h, w = len(self.of("holding")), len(self.of("waiting"))
        m = self.sem.max_value
        self.E.check(self.E.any(w == 0, h >= m), "a task waits although there is room")
        self.E.check(self.sem.value == m - h, "the number of free slots is wrong")
        self.E.check(self.sem.locked() == (h >= m), "locked() is wrong")


def history(E, first, drained, steps):
    loop = E.loop()
    start_max = 1 + first % 2
    sem = PriorityDynamicBoundedSemaphore(start_max)
    s = Sim(E, sem, loop)
    high = start_max
    for k in range(steps):
        h, w = s.of("holding"), s.of("waiting")
        ops = ["enter"] if len(s.tasks) < 4 else []
        if h:
            ops += ["leave", "cancel_holder"]
        if w:
            ops += ["cancel_waiter"]
        if sem.max_value < 3:
            ops += ["more"]
        if sem.max_value > 0 and drained:
            ops += ["less"]
        if k == 0:
            op = "enter"
        else:
            op = ops[E.choice("op", len(ops))]
        before_max = sem.max_value
        if op == "enter":
            s.start(0)
        elif op == "leave":
            s.leave(h[0], "raise" if first >= 2 else "ok")
        elif op == "cancel_holder":
            s.leave(h[-1], "cancel")
        elif op == "cancel_waiter":
            i = w[E.choice("who", len(w))]
            s.leave(i, "cancel")
            E.reach("cancelled")
        elif op == "more":
            sem.max_value = sem.max_value + 1
            E.reach("raised_limit")
        else:
            sem.max_value = sem.max_value - 1
        if op in ("more", "less"):
            E.check(sem.max_value == before_max + (1 if op == "more" else -1), "the limit is not what was set")
        held = len(s.of("holding"))
        limit = max(sem.max_value, before_max)
        if drained or E.choice("run", 2):
            loop.drain()
            s.settled()
            E.check(len(s.of("holding")) <= max(limit, held), "more tasks than the limit hold the semaphore")
            if s.of("waiting"):
                E.reach("waited")
            if s.of("holding"):
                E.reach("granted")
        else:
            E.reach("undrained")
    loop.drain()
    s.settled()
    # everyone left gets in eventually
    if sem.max_value == 0:
        sem.max_value = 1
        loop.drain()
    for _ in range(len(s.tasks)):
        for i in s.of("holding"):
            s.leave(i, "ok")
        loop.drain()
    E.check(len(s.of("done")) == len(s.tasks), "a task never got its turn")
    E.check(E.all(sem.value == sem.max_value, not sem.locked(), sem.num_waiting == 0), "slots were lost")


def order(E, waiters):
    """A freed slot goes to the highest priority, and among equals to who came first."""
    loop = E.loop()
    sem = PriorityLock() if E.bool("lock") else PriorityDynamicBoundedSemaphore(1)
    s = Sim(E, sem, loop)
    s.start(0)
    loop.drain()
    E.check(s.state[0] == "holding", "a free slot is not granted")
    ps = [E.int("p", -3, 300) for _ in range(waiters)]
    for k, p in enumerate(ps):
        s.start(p)
        loop.drain()
    gone = E.choice("cancelled", waiters + 1)
    left = list(range(1, waiters + 1))
    if gone:
        s.leave(gone, "cancel")
        left.remove(gone)
        loop.drain()
    E.check(E.all(sem.num_waiting >= len(left), len(s.of("holding")) == 1), "cancelling a waiter lets another in")
    late = E.bool("late")
    cur = 0
    while left:
        s.leave(cur, "raise" if E.tier == "thorough" and E.choice("how", 2) else "ok")
        loop.drain()
        now = s.of("holding")
        E.check(len(now) == 1, "exactly one task gets the freed slot")
        cur = now[0]
        left.remove(cur)
        for o in left:
            E.check(E.any(s.prio[cur] > s.prio[o], E.all(s.prio[cur] == s.prio[o], cur < o)), "a task overtakes another of the same or a higher priority")
        if late and len(s.tasks) == waiters + 1:
            p = E.int("p_late", -3, 300)
            s.start(p)
            loop.drain()
            left.append(waiters + 1)
            E.check(s.state[waiters + 1] == "waiting", "a newcomer takes a slot in use")
    E.reach("order")


def resume(E):
    """A slot that was given away but whose owner is cancelled before it runs goes to the next one."""
    loop = E.loop()
    sem = PriorityDynamicBoundedSemaphore(1)
    s = Sim(E, sem, loop)
    n = 2 + E.choice("n", 2)
    for _ in range(n):
        s.start(0)
        loop.drain()
    s.leave(0, "ok")
    # let the holder finish, one callback at a time, then cancel the next owner at any point
    k = E.choice("k", 5)
    for _ in range(k):
        if loop._ready:
            loop._one()
    s.leave(1, "cancel")
    loop.drain()
    s.settled()
    if n == 3:
        E.check(s.state[2] == "holding", "the slot of a cancelled task is lost")
    else:
        s.start(0)
        loop.drain()
        E.check(s.state[2] == "holding", "the slot of a cancelled task is lost")
    E.reach("granted")


def misuse(E):
    E.loop()
    m = E.int("m", 0, 5)
    sem = PriorityDynamicBoundedSemaphore(m)
    E.check(E.all(sem.value == m, sem.max_value == m, sem.locked() == (m == 0)), "initial state")
    E.check(E.raises(ValueError, sem.release), "released more often than acquired")
    neg = E.int("neg", -5, -1)
    try:
        sem.max_value = neg
        E.fail("a negative limit is accepted")
    except ValueError:
        pass
    n = E.int("n", 0, 5)
    sem.max_value = n
    E.check(E.all(sem.value == n, sem.max_value == n), "limit change")
    lock = PriorityLock()
    try:
        lock.max_value = n
        E.fail("the size of a lock can be changed")
    except ValueError:
        pass
    E.check(E.all(lock.max_value == 1, not lock.locked()), "a lock has one slot")
    E.reach("lock")
    E.reach("misuse")


def units(tier):
    steps = 5 if tier == "quick" else 6
    out = [(f"history/{f}/{'run' if d else 'held'}", history, {"first": f, "drained": d, "steps": steps}) for f in range(4) for d in (True, False)]
    out += [("order/2", order, {"waiters": 2}), ("order/3", order, {"waiters": 3}), ("resume", resume, {}), ("misuse", misuse, {})]
    if tier != "quick":
        out.append(("order/4", order, {"waiters": 4}))
    return out
