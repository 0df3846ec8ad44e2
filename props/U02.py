"""Duplicate suppression and reschedulable timers, over arbitrary times."""

from zigpy.datastructures import Debouncer, ReschedulableTimeout
from props import world  # noqa: F401

BOUNDS = ("debouncer: 4 uses (5 thorough) of 3 objects with arbitrary windows and gaps; timers: 4 operations (5 thorough) with arbitrary "
          "delays and gaps; times are integers up to 100")
OUTSIDE = "longer histories; fractional times (only order and sums of times matter to the code)"
REACH = ["filtered", "passed", "expired", "fired", "cancelled", "rearmed", "clean"]


class Obj:
    """Hashable and not orderable."""


def debounce(E, steps, fixed, first):
    loop = E.loop()
    d = Debouncer()
    objs = [Obj(), Obj(), Obj()]
    stored = [None, None, None]
    used = 0
    win = E.int("window", 1, 100)
    for k in range(steps):
        if k:
            loop.now = loop.now + E.int("gap", 0, 100)
        # objects are interchangeable: a new one is always the next one
        i = 0 if k == 0 else (first if k == 1 else E.choice("obj", min(used + 1, 3)))
        used = max(used, i + 1) if k else 1
        w = win if fixed else E.int("window", 1, 100)
        now = loop.now
        if E.tier == "thorough" and k and E.choice("peek", 2):
            r = d.is_filtered(objs[i])
        else:
            r = None
        got = d.filter(objs[i], w)
        s = stored[i]
        if s is None:
            E.check(not got, "an object never seen before is suppressed")
            E.reach("passed")
        else:
            E.check(E.any(got, now >= s), "a repetition inside its window is not suppressed")
            E.check(E.any(not got, now <= s), "an object is suppressed after its window has passed")
        if r is not None:
            E.check(r == got, "is_filtered() and filter() disagree")
        if got:
            E.reach("filtered")
        else:
            if s is not None:
                E.reach("expired")
            stored[i] = now + w


def clean(E):
    """Objects are forgotten once their window has passed."""
    loop = E.loop()
    d = Debouncer()
    objs = [Obj(), Obj(), Obj()]
    ends = []
    for o in objs:
        w = E.int("window", 1, 100)
        d.filter(o, w)
        ends.append(loop.now + w)
        loop.now = loop.now + E.int("gap", 0, 50)
    loop.now = loop.now + E.int("wait", 0, 100)
    d.clean()
    for o, e in zip(objs, ends):
        got = d.is_filtered(o)
        E.check(E.any(got, loop.now >= e), "forgotten inside its window")
        E.check(E.any(not got, loop.now <= e), "remembered after its window")
    loop.now = loop.now + 200
    d.clean()
    E.check("[tracked:0]" in repr(d), "expired objects pile up")
    E.reach("clean")


def timer(E, first, steps):
    loop = E.loop()
    fired = []
    tm = ReschedulableTimeout(lambda: fired.append(loop.now))
    due = None
    expect = []
    for k in range(steps):
        op = first if k == 1 else (0 if k == 0 else E.choice("op", 3))
        if op == 0:
            dl = E.int("delay", 1, 100)
            if due is not None:
                E.reach("rearmed")
            tm.reschedule(dl)
            due = loop.now + dl
        elif op == 1:
            tm.cancel()
            due = None
            E.reach("cancelled")
        g = E.int("gap", 0, 100)
        end = loop.now + g
        loop.advance(g)
        if due is not None and due <= end:
            expect.append(due)
            due = None
        E.check(len(fired) == len(expect), "the callback ran too early, too late or again" )
        if fired:
            E.check(E.all(*[a == b for a, b in zip(fired, expect)]), "the callback ran at another time than last asked for")
            E.reach("fired")
    loop.advance(500)
    E.check(len(fired) == len(expect) + (due is not None), "the last timeout is not honoured exactly once")


def again(E):
    """A callback that arms the timer again."""
    loop = E.loop()
    fired = []
    a, b = E.int("a", 1, 50), E.int("b", 1, 50)

    def cb():
        fired.append(loop.now)
        if len(fired) == 1:
            tm.reschedule(b)

    tm = ReschedulableTimeout(cb)
    t0 = loop.now
    tm.reschedule(a)
    loop.advance(200)
    E.check(E.all(len(fired) == 2, fired[0] == t0 + a), "first")
    if len(fired) == 2:
        E.check(fired[1] == t0 + a + b, "rearmed from its own callback")
    E.reach("rearmed")


def units(tier):
    q = tier == "quick"
    out = [(f"debounce/{f}/{i}", debounce, {"steps": 4 if q else 5, "fixed": f == "same", "first": i}) for f in ("same", "any") for i in range(2)]
    out += [("clean", clean, {}), ("again", again, {})]
    out += [(f"timer/{i}", timer, {"first": i, "steps": 4 if q else 5}) for i in range(3)]
    return out
