"""Requests to a device, its replies, timeouts, failures and cancellations."""

import asyncio

import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from zigpy.zcl import foundation as f

BOUNDS = ("up to 2 (thorough 3) requests with arbitrary sequence numbers and priorities, with or without an expected reply; every history of 4 (5) events out "
          "of new request, received reply or request frame with arbitrary sequence number, well-formed or cut off, passing time 0..40 s, cancellation; "
          "two replies at once; sending immediate, delayed or failing; routers, end devices and devices without a node descriptor; ZCL and ZDO")
OUTSIDE = "more requests outstanding; replies exactly at the deadline"
ASSUMPTIONS = ["the radio's send_packet either returns or raises"]
REACH = ["reply", "early_reply", "timeout", "send_failed", "cancelled", "unparsable", "no_reply_wanted", "queued", "unrelated", "request_frame",
         "duplicate", "late", "again", "extended", "priority", "dup_tsn", "at_once", "zdo", "general", "cluster"]


class Req:
    def __init__(self, i, tsn, expect, prio):
        self.i, self.tsn, self.expect, self.prio = i, tsn, expect, prio
        self.state = "queued"
        self.result = None
        self.deadline = None


class Sim:
    def __init__(self, E, node, kind):
        self.E = E
        self.loop = E.loop()
        self.kind = kind
        self.app = world.make_app()
        self.dev = world.add_device(self.app, ins=(0, 4, 6), end_device=node == "sleepy")
        if node == "unknown":
            self.dev.node_desc = None
            self.dev.schedule_initialize = lambda: None
        self.timeout = 5 if node == "router" else 28
        self.extended = node != "router"
        self.reqs = []
        self.nsent = 0
        self.s2c = E.bool("s2c") if kind == "general" else False
        name, source = {
            "general": ("general_command", self.dev.endpoints[1].in_clusters[6]),
            "cluster": ("cluster_command", self.dev.endpoints[1].in_clusters[4]),
            "zdo": ("zdo_node_desc_req", self.dev.zdo),
        }[kind]
        self.rec = world.Rec(name)
        source.add_listener(self.rec)

    # -- real side
    async def _send(self, r, prio):
        kw = dict(profile=0, cluster=2, src_ep=0, dst_ep=0) if self.kind == "zdo" else dict(profile=260, cluster=6, src_ep=1, dst_ep=1)
        return await self.dev.request(sequence=r.tsn, data=b"request", expect_reply=r.expect, priority=prio, **kw)

    def new(self, expect, prio):
        E = self.E
        r = Req(len(self.reqs), E.bits("tsn", 8), expect, prio)
        self.reqs.append(r)
        r.task = self.loop.spawn(self._send(r, prio))
        return r

    def packet(self, tsn, reply, ok, n):
        """A packet carrying n so that it is not mistaken for a repetition."""
        if self.kind == "zdo":
            if reply:
                data = bytes([tsn, 0x80, n, 0x12]) if ok else bytes([tsn, 0x80, n])
            else:
                data = bytes([tsn, n, 0x12]) if ok else bytes([tsn, n])
            return world.packet(self.dev, data, cluster=0x8002 if reply else 2, src_ep=0, dst_ep=0, profile=0)
        if self.kind == "cluster":
            # Groups: add_response(status, group) from the server, add(group, name) from a client
            payload = bytes([0, n, 0x12] if reply else [n, 0x12, 1, 65])
            return world.packet(self.dev, world.zcl(0x19 if reply else 0x11, tsn, 0, payload if ok else payload[:2]), cluster=4)
        if reply:
            # a default response answers whichever direction bit it has, unless it is cut off
            fc = 0x18 if not ok or self.s2c else 0x10
            return world.packet(self.dev, world.zcl(fc, tsn, 0x0B, bytes([n, 0x00] if ok else [n])))
        # a report is no reply whichever direction bit it has
        fc = 0x18 if ok and self.s2c else 0x10
        return world.packet(self.dev, world.zcl(fc, tsn, 0x0A, bytes([n, 0x70, 0x20, 1] if ok else [n, 0x70, 0x20])))

    def same(self, got, n):
        if self.kind == "zdo":
            return self.E.all(len(got) >= 2, got[0] == 0x80, got[1] == 0x1200 + n)
        if self.kind == "cluster":
            return self.E.all(got.group_id == 0x1200 + n, got.status == 0)
        return self.E.all(got.command_id == n, got.status == 0)

    def seen(self):
        """What the cluster was told, as numbers."""
        if self.kind == "zdo":
            return [e[-1][0] - 0x1200 for e in self.rec.events]
        if self.kind == "cluster":
            return [e[-1].group_id - 0x1200 for e in self.rec.events]
        return [e[-1].attribute_reports[0].attrid - 0x7000 for e in self.rec.events if hasattr(e[-1], "attribute_reports")]


def queue(E, node, kind, depth, send):
    """Every history against a model of one request at a time."""
    s = Sim(E, node, kind)
    loop, dev, app = s.loop, s.dev, s.app
    delay = E.int("delay", 1, 4) if send == "delayed" else 0
    fails, stray = [], []

    async def gate(packet):
        if delay:
            await asyncio.sleep(delay)

    app.gate = gate

    def fail(packet):
        if send == "failing" and len(app.sent) == 1:
            return zigpy.exceptions.DeliveryError("radio")
        return None

    app.fail = fail
    active = []
    queue_ = []

    def settle(r, state, result=None):
        r.state, r.result = state, result
        if r in active:
            active.remove(r)
        if r in queue_:
            queue_.remove(r)
        start()

    def start():
        if active or not queue_:
            return
        best = queue_[0]
        queue_.remove(best)
        active.append(best)
        best.state = "sending"
        best.early = None
        s.nsent += 1
        best.index = s.nsent
        best.sent_at = clock[0] + delay
        best.deadline = clock[0] + delay + s.timeout
        if not delay:
            sent(best)

    def sent(r):
        if send == "failing" and r.index == 1:
            E.reach("send_failed")
            settle(r, "failed")
        elif not r.expect:
            E.reach("no_reply_wanted")
            settle(r, "none")
        elif r.early is not None:
            E.reach("early_reply")
            settle(r, *r.early)
        else:
            r.state = "waiting"

    clock = [loop.now]

    def pass_time(dt):
        end = clock[0] + dt
        while active:
            r = active[0]
            if r.state == "sending":
                if not (r.sent_at <= end):
                    break
                clock[0] = r.sent_at
                sent(r)
            else:
                E.assume(r.deadline != end)
                if not (r.deadline < end):
                    break
                clock[0] = r.deadline
                E.reach("timeout")
                settle(r, "timeout")
        clock[0] = end

    npk = 0
    for step in range(depth):
        op = E.choice("op", 4) if s.reqs else 0
        if op == 0:
            if len(s.reqs) >= (2 if E.tier == "quick" else 3):
                E.assume(False)
            expect = True if len(s.reqs) else E.bool("expect")
            prio = t.PacketPriority.NORMAL
            n = len(s.reqs)
            r = Req(n, None, expect, prio)
            queue_.append(r)
            if active:
                E.reach("queued")
            real = s.new(expect, prio)
            r.tsn, r.task = real.tsn, real.task
            s.reqs[-1] = r
            start()
        elif op == 1:
            tsn = E.bits("ptsn", 8)
            reply, ok = E.bool("reply"), E.bool("ok")
            npk += 1
            app.packet_received(s.packet(tsn, reply, ok, npk))
            loop.drain()
            hit = [r for r in active if r.expect and r.tsn == tsn] if reply else []
            if hit:
                r = hit[0]
                out = ("done", npk) if ok else ("unparsable", None)
                E.reach("reply" if ok else "unparsable")
                if r.state == "sending":
                    if r.early is None:
                        r.early = out
                    else:
                        E.reach("duplicate")
                else:
                    settle(r, *out)
            elif ok:
                if reply:
                    stray.append(npk)
                else:
                    fails.append(npk)
                E.reach("request_frame" if not reply else "unrelated")
                if s.reqs and not active:
                    E.reach("late")
        elif op == 2:
            pass_time(E.int("dt", 1, 40))
            loop.advance(clock[0] - loop.now)
        else:
            live = [r for r in s.reqs if r.state in ("queued", "sending", "waiting")]
            if not live:
                E.assume(False)
            r = live[E.choice("victim", len(live))]
            r.task.cancel()
            loop.drain()
            E.reach("cancelled")
            settle(r, "cancelled")
        check(E, s, fails, stray)
    # whatever happened, everything ends, and the sequence numbers are free again
    pass_time(100)
    loop.advance(clock[0] - loop.now)
    check(E, s, fails, stray)
    E.check(all(r.task.done() for r in s.reqs), "a request never ends")
    app.fail = app.gate = None
    last = s.reqs[0].tsn
    fin = Req(9, last, True, 0)
    fin.task = loop.spawn(s._send(fin, 0))
    app.packet_received(s.packet(last, True, True, 99))
    loop.drain()
    E.check(fin.task.done() and s.same(fin.task.result(), 99), "a sequence number cannot be used again")
    E.reach("again")
    E.reach(kind)


def check(E, s, others, stray):
    E.check(len(s.app.sent) == s.nsent, "number of packets sent")
    for r in s.reqs:
        if r.state in ("queued", "sending", "waiting"):
            E.check(not r.task.done(), f"a {r.state} request ended")
            continue
        E.check(r.task.done(), f"a request did not end when it should have {r.state}")
        if r.state == "cancelled":
            E.check(r.task.cancelled(), "a cancelled request")
            continue
        exc = r.task.exception()
        if r.state == "none":
            E.check(exc is None and r.task.result() is None, "no reply wanted")
        elif r.state == "done":
            E.check(exc is None and s.same(r.task.result(), r.result), "the reply's contents")
        elif r.state == "failed":
            E.check(isinstance(exc, zigpy.exceptions.DeliveryError), "the radio's error")
        elif r.state == "timeout":
            E.check(isinstance(exc, asyncio.TimeoutError), "timeout")
        else:
            E.check(isinstance(exc, zigpy.exceptions.ParsingError), "unparsable reply")
    seen = s.seen()
    for n in others:
        E.check(seen.count(n) == 1, "a frame which answers nothing is passed on once")
    for n in seen:
        E.check(n in others or n in stray, "an answered request's reply is passed on")
    if s.extended:
        E.reach("extended")
    for p in s.app.sent:
        E.check(p.data.serialize() == b"request", "the data sent")


def priority(E):
    """Waiting requests are sent one at a time, the most important first, otherwise in order."""
    s = Sim(E, "router", "general")
    s.s2c = True
    loop = s.loop
    n = 4 if E.tier == "quick" else 5
    prios = [E.int("prio", -2, 2) for _ in range(n)]
    tasks = [loop.spawn(s.dev.request(260, 6, 1, 1, 10 + i, b"request", priority=prios[i])) for i in range(n)]
    waiting = list(range(1, n))
    active = 0
    order = 1
    while True:
        E.check(len(s.app.sent) == order and s.app.sent[-1].tsn == 10 + active, "the next request")
        E.check(s.app.sent[-1].priority == prios[active], "the priority given to the radio")
        s.app.packet_received(s.packet(10 + active, True, True, order))
        loop.drain()
        E.check(tasks[active].done(), "its reply")
        if not waiting:
            break
        best = waiting[0]
        for w in waiting[1:]:
            if prios[w] > prios[best]:
                best = w
        waiting.remove(best)
        active = best
        order += 1
    E.reach("priority")


def duplicate(E):
    """With more than one request in flight at a time a sequence number is used by one of them only."""
    loop = E.loop()
    app = world.make_app()
    dev = world.add_device(app)
    dev._concurrent_requests_semaphore.max_value = 3
    tsns = [E.bits("tsn", 8) for _ in range(3)]
    tasks = [loop.spawn(dev.request(260, 6, 1, 1, x, b"request")) for x in tsns]
    live = []
    for i, task in enumerate(tasks):
        if E.any(*[tsns[i] == tsns[j] for j in live]) if live else False:
            E.check(task.done() and isinstance(task.exception(), zigpy.exceptions.ControllerException), "duplicate sequence number")
            E.reach("dup_tsn")
        else:
            E.check(not task.done(), "unique sequence number")
            live.append(i)
    E.check(len(app.sent) == len(live), "refused requests are not sent")
    tsn = E.bits("ptsn", 8)
    app.packet_received(world.packet(dev, world.zcl(0x18, tsn, 0x0B, bytes([1, 0]))))
    loop.drain()
    for i in live:
        E.check(tasks[i].done() == (tsns[i] == tsn), "a reply resolves only its own request")
    for i in live:
        tasks[i].cancel()
    loop.drain()


def flags(E):
    """The extended timeout is asked of the radio when, and only when, it is used."""
    loop = E.loop()
    kind = E.pick("kind", ["router", "sleepy", "unknown"])
    s = Sim(E, kind, "general")
    expect = E.bool("expect")
    timeout = E.int("timeout", 1, 60)
    tsn = E.bits("tsn", 8)
    prio = E.pick("priority", [t.PacketPriority.LOW, t.PacketPriority.NORMAL, t.PacketPriority.HIGH, t.PacketPriority.CRITICAL])
    task = s.loop.spawn(s.dev.request(260, 6, 1, 1, tsn, b"request", expect_reply=expect, timeout=timeout, priority=prio))
    p = s.app.sent[0]
    E.check(p.priority == prio, "the priority given to the radio")
    E.check(bool(p.extended_timeout) == (expect and kind != "router"), "extended timeout")
    E.check(E.all(p.tsn == tsn, p.dst.address == s.dev.nwk, p.profile_id == 260, p.cluster_id == 6, p.src_ep == 1, p.dst_ep == 1), "packet")
    if expect:
        limit = timeout if kind == "router" else 28
        dt = E.int("dt", 1, 70)
        E.assume(dt != limit)
        s.loop.advance(dt)
        E.check(task.done() == (dt > limit), "the timeout")
        s.loop.advance(100)
    else:
        E.check(task.done(), "no reply is awaited")


def double(E, kind):
    """Of two replies that come at once the first counts; the second disturbs nothing."""
    s = Sim(E, "router", kind)
    s.s2c = True
    r = s.new(True, 0)
    oks = [E.bool("ok"), E.bool("ok")]
    tsns = [E.bits("ptsn", 8), E.bits("ptsn", 8)]
    for n in (0, 1):
        s.app.packet_received(s.packet(tsns[n], True, oks[n], n + 1))
    s.loop.drain()
    first = 0 if tsns[0] == r.tsn else 1 if tsns[1] == r.tsn else None
    E.check(r.task.done() == (first is not None), "the reply ends the request")
    if first is not None:
        E.reach("at_once")
        if oks[first]:
            E.check(r.task.exception() is None and s.same(r.task.result(), first + 1), "the first reply's contents")
        else:
            E.check(isinstance(r.task.exception(), zigpy.exceptions.ParsingError), "unparsable reply")
    s.loop.advance(100)
    fin = Req(9, r.tsn, True, 0)
    fin.task = s.loop.spawn(s._send(fin, 0))
    s.app.packet_received(s.packet(r.tsn, True, True, 99))
    s.loop.drain()
    E.check(fin.task.done() and s.same(fin.task.result(), 99), "a sequence number cannot be used again")


def units(tier):
    depth = 4 if tier == "quick" else 5
    out = [("flags", flags, {}), ("duplicate", duplicate, {}), ("priority", priority, {})] + [(f"double:{k}", double, {"kind": k}) for k in ("general", "cluster", "zdo")]
    for node in ("router", "sleepy", "unknown"):
        for kind in ("general", "cluster", "zdo"):
            for send in ("now", "delayed", "failing"):
                if node != "router" and (send != "now" or kind != "general" and node == "sleepy"):
                    continue
                out.append((f"{node}:{kind}:{send}", queue, dict(node=node, kind=kind, depth=depth, send=send)))
    return out
