"""Topology scans: neighbour and routing tables, unknown devices, schedules."""

import asyncio
import random

import zigpy.config as conf
import zigpy.exceptions
import zigpy.topology
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from props.common import chunks, le

BOUNDS = ("tables of up to 3 entries (one of 35) in up to 3 answers with any claimed size, arbitrary short addresses and kinds of entry; any request failing up to 3 times in 2 ways or answered with any error status; "
          "5 devices of all kinds; scans started anew at any of 6 steps; schedules stopped or restarted at any of 7 steps, also during a scan")
OUTSIDE = "other tables of more than 3 entries; discovery broadcasts that fail"
REACH = ["pages", "short", "invalid", "unsupported", "timeout", "retried", "kept", "inactive", "kinds", "skip", "unknown", "known", "preempt", "periodic", "stopped", "manual", "iterable"]

LQI, RTG = 0x0031, 0x0032
ZERO, ONES = b"\x00" * 8, b"\xff" * 8


def neighbor(E, ieee, nwk):
    return b"\x01\x02\x03\x04\x05\x06\x07\x08" + ieee + le(E, nwk, 2) + bytes([0x25, 0x02, 0x0F, 0xC8])


def route(E, dst, status, hop):
    return le(E, dst, 2) + le(E, status, 1) + le(E, hop, 2)


class Net(world.App):
    """Devices answer table requests; `table(dev, cluster, start)` gives (status, entries claimed, list of entries) or an exception, or None."""

    table = staticmethod(lambda dev, cluster, start: (0, 0, []))

    def __init__(self, cfg):
        super().__init__(cfg)
        self.asked = []
        self.running = 0

    async def send_packet(self, p):
        self.sent.append(p)
        if not p.profile_id == 0 or p.cluster_id not in (LQI, RTG):
            return
        dev = next(d for d in self.devices.values() if d.nwk == p.dst.address)
        raw = p.data.serialize()
        self.asked.append((dev, int(p.cluster_id), raw[1], asyncio.get_running_loop().time()))
        r = self.table(dev, int(p.cluster_id), raw[1])
        if isinstance(r, Exception):
            raise r
        if r is None:
            return
        status, claimed, entries = r
        body = raw[:1] + le(self.E, status, 1) + le(self.E, claimed, 1) + raw[1:2] + bytes([len(entries)])
        for e in entries:
            body = body + e
        if self.bare:
            body = raw[:1] + le(self.E, status, 1)
        pkt = world.packet(dev, body, cluster=0x8000 | int(p.cluster_id), src_ep=0, dst_ep=0, profile=0)
        asyncio.get_running_loop().call_soon(self.packet_received, pkt)

    bare = False


def make(E, skip=False):
    loop = E.loop()
    E.patch(random, "uniform", lambda a, b: a)
    app = world.make_app({conf.CONF_TOPO_SKIP_COORDINATOR: skip}, cls=Net)
    app.E = E
    own = world.add_device(app, ieee=world.NCP, nwk=0)
    own.node_desc = own.node_desc.replace(logical_type=zdot.LogicalType.Coordinator)
    return loop, app


def settle(loop, task, limit=400):
    loop.drain()
    while not task.done() and loop.next_timer() is not None and limit:
        loop.fire_next()
        limit -= 1


def unknown_asked(app):
    return [p for p in app.sent if p.profile_id == 0 and p.cluster_id == 0x0001]


def pages(E, kind, shape, bare=False, odd=0):
    """One router's table, however it is divided into answers."""
    loop, app = make(E)
    app.bare = bare
    dev = world.add_device(app, ieee=world.IEEES[0], nwk=0x1111)
    rec = world.Rec("neighbors_updated", "routes_updated")
    app.topology.add_listener(rec)
    cluster = LQI if kind == "lqi" else RTG
    claimed, status = E.bits("claimed", 8), E.bits("status", 8)
    if not bare:
        E.assume(status == 0)
    entries, good = [], []
    for k in range(sum(shape)):
        if kind == "lqi":
            what = E.pick("ieee", ["known", "zero", "ones", "any"]) if k == odd else "known"
            ieee = {"known": world.IEEES[1].serialize(), "zero": ZERO, "ones": ONES, "any": le(E, E.int("low", 1, 255), 1) + b"\x00" * 7}[what]
            e = neighbor(E, ieee, 0x1111)
            ok = what in ("known", "any")
            if not ok:
                E.reach("invalid")
        else:
            st = E.bits("route", 8) if k == odd else 0
            e = route(E, 0x1111, st, 0x1111)
            ok = E.concrete(bool((st & 7) != 3))
            if not ok:
                E.reach("inactive")
        entries.append(e)
        good.append(ok)
    starts = [sum(shape[:k]) for k in range(len(shape))]

    def table(d, c, start):
        if d is not dev or c != cluster:
            return (0, 0, [])
        for s, n in zip(starts, shape):
            if E.concrete(bool(start == s)) and n:
                return (status, claimed, entries[s : s + n])
        return (status, claimed, [])

    app.table = table
    task = loop.create_task(app.topology.scan([dev]))
    settle(loop, task)
    E.check(task.done() and task.exception() is None, "the scan ends")
    asks = [(s, at) for d, c, s, at in app.asked if d is dev and c == cluster]
    have = (app.topology.neighbors if kind == "lqi" else app.topology.routes)[dev.ieee]
    if bare:
        E.check(len(asks) == 1 or E.concrete(bool(status == 0)), "an answer without a table ends it")
        E.check(have == [], "there is no table")
        again = loop.create_task(app.topology.scan([dev]))
        settle(loop, again)
        n = len([1 for d, c, s, at in app.asked if d is dev and c == cluster])
        if E.concrete(bool(status != 0)):
            E.check(n == 1, "a device that does not support it is not asked again")
            E.reach("unsupported")
        return
    exp, idx, got = [], 0, []
    while True:
        exp.append(idx)
        n = dict(zip(starts, shape)).get(idx, 0) if idx in starts else 0
        got += list(range(idx, idx + n))
        idx += n
        if n == 0 or E.concrete(bool(claimed <= idx)):
            break
    E.check(len(asks) == len(exp) and E.all(*[a[0] == b for a, b in zip(asks, exp)]), "each part is asked for once, from where the last one ended, until all are there or none comes")
    E.check(all(asks[k + 1][1] - asks[k][1] >= 1 for k in range(len(asks) - 1)), "with a pause between requests")
    want = [entries[i] for i in got if good[i]]
    E.check(len(have) == len(want) and E.all(*[h.serialize() == w for h, w in zip(have, want)]), "the table has every valid entry, in order")
    ev = rec.of("neighbors_updated" if kind == "lqi" else "routes_updated")
    E.check(len(ev) == 1 and ev[0][0] == dev.ieee and ev[0][1] == have, "it is announced once")
    E.reach("pages")
    if E.concrete(bool(claimed > sum(shape))):
        E.reach("short")


def faults(E, kind, page):
    """Requests that fail are tried again; what was known is kept when that is of no use."""
    loop, app = make(E)
    dev = world.add_device(app, ieee=world.IEEES[0], nwk=0x1111)
    other = world.add_device(app, ieee=world.IEEES[1], nwk=0x2222)
    rec = world.Rec("neighbors_updated", "routes_updated")
    app.topology.add_listener(rec)
    cluster = LQI if kind == "lqi" else RTG
    mk = (lambda k: neighbor(E, world.IEEES[2 + k].serialize(), 0x1111)) if kind == "lqi" else (lambda k: route(E, 0x1111, k, 0x2222))
    old = [mk(2)]
    tables = app.topology.neighbors if kind == "lqi" else app.topology.routes
    cls = zdot.Neighbor if kind == "lqi" else zdot.Route
    keep = E.bool("had")
    if keep:
        tables[dev.ieee] = [cls.deserialize(old[0])[0]]
    fails, how = E.choice("fails", 4), [E.pick("how", ["timeout", "delivery", "status"]) for _ in range(2)]
    left = [fails]
    failed = []
    bad_status = E.int("status", 1, 255)

    def table(d, c, start):
        if d is other:
            return (0, 1, [mk(1)]) if c == cluster else (0, 0, [])
        if c != cluster:
            return (0, 0, [])
        k = int(start) if not E.symbolic else E.concrete(start)
        if k == page and left[0]:
            left[0] -= 1
            h = how[min(1, fails - left[0] - 1)]
            failed.append(h)
            if h == "status":
                return (bad_status, 0, [])
            return None if h == "timeout" else zigpy.exceptions.DeliveryError("no")
        return (0, 2, [mk(k)])

    app.table = table
    task = loop.create_task(app.topology.scan([dev, other]))
    settle(loop, task)
    E.check(task.done() and task.exception() is None, "the scan ends")
    have = tables[dev.ieee]
    n = len([1 for d, c, s, at in app.asked if d is dev and c == cluster])
    if "status" in failed:
        E.check(have == [], "a device that refuses has no table")
        E.check(n == page + failed.index("status") + 1, "and is not asked further")
    elif len(failed) >= 3:
        E.check([h.serialize() for h in have] == (old if keep else []), "what was known before is kept")
        E.check(n == page + 3, "three tries")
        E.reach("kept")
    else:
        E.check([h.serialize() for h in have] == [mk(0), mk(1)], "the table is complete")
        E.check(n == 2 + len(failed), "only what failed is asked for again")
        if failed:
            E.reach("retried")
    if "timeout" in failed:
        E.reach("timeout")
    name = "neighbors_updated" if kind == "lqi" else "routes_updated"
    ev = rec.of(name)
    E.check([e[0] for e in ev] == [dev.ieee, other.ieee] and ev[0][1] == have, "each is announced once")
    E.check([h.serialize() for h in tables[other.ieee]] == [mk(1)], "other devices are scanned all the same")
    left[0], before = 0, len(app.asked)
    task = loop.create_task(app.topology.scan([dev]))
    settle(loop, task)
    asked = [c for d, c, s, at in app.asked[before:]]
    E.check(asked.count(LQI + RTG - cluster) == 1, "the other table is asked for all the same")
    E.check(asked.count(cluster) == (0 if "status" in failed else 2), "a table a device refuses is not asked for again")


def kinds(E, gen):
    """Which devices are asked."""
    skip = E.bool("skip")
    loop, app = make(E, skip)
    lt = E.int("type", 0, 7)
    devs = list(app.devices.values())
    for i, (desc, typ) in enumerate([(True, lt), (True, 1), (False, 0), (True, 2)]):
        d = world.add_device(app, ieee=world.IEEES[i], nwk=0x1000 + i)
        d.node_desc = d.node_desc.replace(logical_type=zdot.LogicalType(typ)) if desc else None
        devs.append(d)
    arg = None
    chosen = devs
    if gen:
        chosen = devs[:3]
        arg = iter(chosen) if gen == 1 else list(chosen)
        E.reach("iterable")
    task = loop.create_task(app.topology.scan(arg) if gen else app.topology.scan())
    settle(loop, task)
    E.check(task.done() and task.exception() is None, "the scan ends")
    exp = []
    for d in chosen:
        if d.node_desc is None:
            continue
        typ = d.node_desc.logical_type
        if not E.concrete(bool(E.any(typ == 0, typ == 1))):
            continue
        if d is devs[0] and E.concrete(skip):
            E.reach("skip")
            continue
        exp += [(d, LQI), (d, RTG)]
    E.check(len(app.asked) == len(exp) and all(a[0] is b[0] and a[1] == b[1] for a, b in zip(app.asked, exp)), "routers and coordinators are asked for both tables, and nobody else")
    E.reach("kinds")


def unknown(E, sym):
    """Devices found in tables but not known are looked for."""
    loop, app = make(E)
    dev = world.add_device(app, ieee=world.IEEES[0], nwk=0x1111)
    other = world.add_device(app, ieee=world.IEEES[1], nwk=0x2222)
    n1, early, dst, hop = (E.bits(n, 16) if n in sym else v for n, v in (("nwk", 0x2222), ("early", 0x3333), ("dst", 0x4444), ("hop", 0x3333)))
    st = E.int("status", 0, 7)
    app.topology.neighbors[other.ieee] = [zdot.Neighbor.deserialize(neighbor(E, world.IEEES[3].serialize(), early))[0]]

    def table(d, c, start):
        if start != 0:
            return (0, 0, [])
        return (0, 1, [neighbor(E, world.IEEES[2].serialize(), n1)]) if c == LQI else (0, 1, [route(E, dst, st, hop)])

    app.table = table
    start_at = loop.time()
    task = loop.create_task(app.topology.scan([dev]))
    settle(loop, task)
    E.check(task.done() and task.exception() is None, "the scan ends")
    found = [n1, early] + ([dst, hop] if E.concrete(bool(st == 0)) else [])
    known = [0, 0x1111, 0x2222]
    exp = []
    for x in found:
        if E.concrete(bool(E.any(*[x == k for k in known + exp]))):
            E.reach("known")
            continue
        exp.append(x)
    asked = unknown_asked(app)
    E.check(len(asked) == len(exp), "each unknown address is looked for once")
    for x in exp:
        E.check(E.any(*[a.data.serialize()[1:] == le(E, x, 2) + b"\x00\x00" for a in asked]), "each unknown address is looked for")
    if exp:
        E.reach("unknown")


def preempt(E):
    """A new scan replaces the one that runs."""
    loop, app = make(E)
    devs = [world.add_device(app, ieee=world.IEEES[i], nwk=0x1000 + i) for i in range(2)]
    app.table = lambda d, c, s: (0, 1, [neighbor(E, world.IEEES[3].serialize(), 0x1000) if c == LQI else route(E, 0x1000, 0, 0x1001)]) if s == 0 else (0, 1, [])
    one = loop.create_task(app.topology.scan(devs))
    loop.drain()
    for _ in range(E.choice("at", 6)):
        if loop.next_timer() is not None:
            loop.fire_next()
    over = one.done()
    n = len(app.asked)
    two = loop.create_task(app.topology.scan([devs[1]]))
    loop.drain()
    E.check(one.done() and (over or one.cancelled()), "the first one ends at once")
    settle(loop, two)
    E.check(two.done() and two.exception() is None, "the second one completes")
    E.check([(a[0], a[1]) for a in app.asked[n:]] == [(devs[1], LQI), (devs[1], RTG)], "and asks only for its own")
    E.reach("preempt")


def periodic(E, op):
    loop, app = make(E)
    dev = world.add_device(app, ieee=world.IEEES[0], nwk=0x1111)
    del app.devices[world.NCP]
    app.table = lambda d, c, s: (0, 0, [])
    period = E.pick("period", [10, 60, 240 * 60])
    begin = loop.time()
    app.topology.start_periodic_scans(period)
    loop.drain()
    E.check(app.asked == [], "the first scan is after a period")
    steps = E.choice("at", 7)
    for _ in range(steps):
        loop.fire_next()
    n = len(app.asked)
    if op == "stop":
        app.topology.stop_periodic_scans()
        loop.drain()
        for _ in range(12):
            if loop.next_timer() is not None:
                loop.fire_next()
        E.check(len(app.asked) == n, "after stopping nothing more is asked")
        E.reach("stopped")
        return
    if op == "restart":
        loop.advance(E.pick("late", [0, 4]))
        n = len(app.asked)
        app.topology.start_periodic_scans(period)
        loop.drain()
        at = loop.time()
        E.check(len(app.asked) == n, "starting again starts over")
        loop.advance(period * 2 + 9)
        times = [a[3] for a in app.asked[n:] if a[1] == LQI]
        E.check(len(times) == 2 and times[0] == at + period, "and scans once each period")
        E.reach("stopped")
        return
    if op == "manual":
        task = loop.create_task(app.topology.scan([dev]))
        settle(loop, task)
        E.check(task.done() and task.exception() is None, "a scan asked for completes")
        m = len([a for a in app.asked if a[1] == LQI])
        loop.advance(period * 2 + 9)
        E.check(len([a for a in app.asked if a[1] == LQI]) >= m + 1, "and scheduled ones go on")
        E.reach("manual")
        return
    loop.advance(period * 3)
    times = [a[3] for a in app.asked if a[1] == LQI]
    E.check(times[0] == begin + period, "the first scan is after a period")
    E.check(all(E.concrete(bool(b - a >= period)) for a, b in zip(times, times[1:])) and all(E.concrete(bool(b - a <= period + 5)) for a, b in zip(times, times[1:])), "then each period")
    E.reach("periodic")


def units(tier):
    shapes = [(0,), (1,), (2,), (1, 1), (2, 1), (3,), (1, 1, 1)]
    for kind in ("lqi", "rtg"):
        for i, sh in enumerate(shapes):
            yield f"pages-{kind}-{i}", pages, dict(kind=kind, shape=sh, odd=min(1, max(0, sum(sh) - 1)))
        yield f"pages-{kind}-long", pages, dict(kind=kind, shape=(30, 4, 1), odd=33)
        yield f"bare-{kind}", pages, dict(kind=kind, shape=(0,), bare=True)
        for page in (0, 1):
            yield f"faults-{kind}-{page}", faults, dict(kind=kind, page=page)
    for gen in (0, 1, 2):
        yield f"kinds-{gen}", kinds, dict(gen=gen)
    for sym in (("nwk", "early"), ("dst", "hop"), ("nwk", "dst"), ("early", "hop")):
        yield "unknown-" + "-".join(sym), unknown, dict(sym=sym)
    yield "preempt", preempt, {}
    for op in ("run", "stop", "restart", "manual"):
        yield f"periodic-{op}", periodic, dict(op=op)
