"""Counters of what happens on the network."""

import zigpy.state as st

BOUNDS = "histories of up to 4 changes of a counter by any amounts below 2^32; groups of counters with names and tags of any of 3 values, up to 3 deep, in histories of up to 4 changes"
OUTSIDE = "negative values; tags named like counters of the same group"
REACH = ["rollover", "grown", "same", "reset", "nested", "refused"]


def single(E, n):
    c = st.Counter("name", initial_value=E.bits("initial", 32)) if E.bool("given") else st.Counter("name")
    base, raw, resets = 0, c.value, 0
    for i in range(n):
        what = E.pick(f"what{i}", ["update", "increment", "one", "reset", "clear"])
        before = c.value
        v = E.bits(f"v{i}", 32)
        if what == "update":
            c.update(v)
            if E.concrete(bool(v < raw)):
                base, resets = base + raw, resets + 1
                E.reach("rollover")
            else:
                E.reach("same" if E.concrete(bool(v == raw)) else "grown")
            raw = v
        elif what == "increment":
            c.increment(v)
            raw = raw + v
        elif what == "one":
            c.increment()
            raw = raw + 1
        else:
            c.reset_and_update(v) if what == "reset" else c.reset()
            base, raw, resets = base + raw, v if what == "reset" else 0, resets + 1
            E.reach("reset")
        total = base + raw
        E.check(c.value >= before, "a counter never decreases")
        E.check(E.all(c.value == total, int(c) == total, c == total, E.not_(c == total + 1)), "it is the sum of what was counted, across resets and rollovers")
        E.check(c.reset_count == resets, "resets and rollovers are counted")
    E.check(E.raises(AssertionError, c.increment, -1), "counting down is refused")
    E.reach("refused")
    E.check(c.value == total and c.name == "name", "and changes nothing")


def equal(E):
    a, b = st.Counter("a", initial_value=E.bits("a", 32)), st.Counter("b", initial_value=E.bits("b", 32))
    a.reset()
    a.increment(E.bits("more", 32))
    E.check((a == b) == (a.value == b.value), "counters are equal exactly if their values are")


def groups(E, n, which):
    """Each tag counts for itself, within the tags before it."""
    state = st.State()
    top = getattr(state, which)
    want = {}
    for i in range(n):
        g = E.pick(f"group{i}", ["A", "B"])
        what = E.pick(f"what{i}", ["tagged", "direct", "reset"])
        if what == "tagged":
            tags = E.pick(f"tags{i}", [("x",), ("x", "y"), ("y", "x", "z")])
            name = ("in", "out")[i % 2]
            top[g].increment(name, *tags)
            for k in range(len(tags)):
                key = (g, *tags[: k + 1], name)
                want[key] = want.get(key, [0, 0])
                want[key][0] += 1
            if len(tags) > 1:
                E.reach("nested")
        elif what == "direct":
            v = E.bits(f"v{i}", 32)
            top[g]["own"].increment(v)
            want[g, "own"] = want.get((g, "own"), [0, 0])
            want[g, "own"][0] += v
        else:
            top[g].reset()
            for key in want:
                if key[0] == g:
                    want[key][1] += 1
    found = {}

    def walk(group, path):
        names = []
        for c in group.counters():
            found[(*path, c.name)] = (c.value, c.reset_count)
            names.append(c.name)
        for sub in group.groups():
            walk(sub, (*path, sub.name))
            names.append(sub.name)
        E.check(sorted(names) == sorted(group) and sorted(group.tags()) == sorted(s.name for s in group.groups()), "a group consists of its counters and its groups")

    for group in top:
        walk(group, (group.name,))
    E.check(sorted(found) == sorted(want), "exactly what was counted is there")
    for key in want:
        E.check(E.all(found[key][0] == want[key][0], found[key][1] == want[key][1]), "each counter is the sum of what was counted for it, and resets reach all of a group")
    others = [s for s in (state.counters, state.broadcast_counters, state.device_counters, state.group_counters) if s is not top]
    E.check(all(not list(o) for o in others), "other collections are not involved")


def units(tier):
    yield "single", single, dict(n=3 if tier == "quick" else 4)
    yield "equal", equal, {}
    for i, which in enumerate(("counters", "broadcast_counters", "device_counters", "group_counters")):
        yield f"groups-{which}", groups, dict(n=3 if not i or tier != "quick" else 2, which=which)
