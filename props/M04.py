"""Frames that demand an answer get the right one, once."""

import datetime

import zigpy.exceptions
import zigpy.types as t
import zigpy.zcl.clusters.general as general
from props import world
from props.common import le
from zigpy.zcl import foundation as f

BOUNDS = ("reports, reads of up to 2 attributes of every cluster of the device, alarm notifications, OTA queries and block requests, device object requests "
          "with arbitrary addresses, all with arbitrary sequence numbers and fields; any time of day and time zone; failing replies")
OUTSIDE = "answers given by quirks; whether a broadcast deserves an answer"
ASSUMPTIONS = ["the clock is a whole number of seconds after 2000"]
REACH = ["default_rsp", "no_default_rsp", "read", "time", "basic", "unsupported", "ias", "ota_query", "ota_block", "ota_busy", "nwk_addr", "ieee_addr", "match",
         "silent", "failing", "announce", "permit"]


def make(E):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, ins=(0x0004, 0x0006, 0x0500), outs=(0x0000, 0x000A, 0x0019))
    return loop, app, dev


def failing(E, app):
    """The radio may refuse the reply."""
    if E.bool("failing"):
        app.fail = lambda p: zigpy.exceptions.DeliveryError("no")
        E.reach("failing")


def one(E, app, dev, cluster, prio, ep=1, profile=260):
    E.check(len(app.sent) == 1, "one answer")
    p = app.sent[0]
    E.check(E.all(p.dst.address == dev.nwk, p.cluster_id == cluster, p.src_ep == ep, p.dst_ep == ep, p.profile_id == profile), "sent to the asking endpoint and cluster")
    if prio is not None:
        E.check(p.priority == prio, "the answer's priority")
    return p.data.serialize()


def report(E):
    loop, app, dev = make(E)
    failing(E, app)
    tsn = E.bits("tsn", 8)
    quiet = E.bool("quiet")
    cid = E.pick("cluster", [0x0006, 0x000A])
    out = cid == 0x000A
    manuf = None
    fc = (0x10 if quiet else 0) | (0 if out else 8)
    cl = dev.endpoints[1].out_clusters[cid] if out else dev.endpoints[1].in_clusters[cid]
    n = E.choice("n", 3)
    payload = b"".join([bytes([i, 0x40, 0x20, E.bits("value", 8)]) for i in range(n)])
    app.packet_received(world.packet(dev, world.zcl(fc, tsn, 0x0A, payload, manuf), cluster=cid))
    loop.drain()
    if quiet:
        E.check(not app.sent, "nothing is sent when no default response is wanted")
        E.reach("no_default_rsp")
    else:
        data = one(E, app, dev, cid, t.PacketPriority.LOW)
        E.check(data == bytes([0x18 if out else 0x10, tsn, 0x0B, 0x0A, 0x00]), "a default response reporting success")
        E.reach("default_rsp")
    loop.advance(100)
    E.check(len(app.sent) == (0 if quiet else 1), "answered once")


def others(E):
    """Frames that need no answer get none."""
    loop, app, dev = make(E)
    fc = E.pick("fc", [0x08, 0x18, 0x00, 0x10])
    cmd = E.pick("cmd", [0x01, 0x04, 0x07, 0x0B, 0x0D])
    payload = {0x01: b"\x00\x40\x86", 0x04: b"\x00", 0x07: b"\x00", 0x0B: b"\x0a\x00", 0x0D: b"\x01"}[cmd]
    app.packet_received(world.packet(dev, world.zcl(fc, E.bits("tsn", 8), cmd, payload)))
    app.packet_received(world.packet(dev, world.zcl(0x09, E.bits("tsn", 8), 0, b"\x00\x05\x00"), cluster=4))
    loop.drain()
    E.check(not app.sent, "an answer nobody asked for")
    E.reach("silent")


def served(E, which, two):
    """Attribute reads: what the coordinator serves, and a refusal for everything else."""
    loop, app, dev = make(E)
    now = E.int("now", 0, 0xFFFFFFFE)
    offset = E.pick("offset", [0, 3600, -18000, 19800, 50400, -43200])
    E.assume(E.all(now + offset >= 0, now + offset <= 0xFFFFFFFE))

    class Delta:
        def __init__(self, s):
            self.s = s

        def total_seconds(self):
            return self.s

    class Moment:
        def __init__(self, s):
            self.s = s

        def __add__(self, d):
            return Moment(self.s + d.s)

        def __sub__(self, other):
            return Delta(self.s)

        def astimezone(self, tz=None):
            return self

        def utcoffset(self):
            return Delta(offset)

    class Clock:
        @staticmethod
        def now(tz=None):
            return Moment(now if tz is not None else now + offset)

    E.patch(general, "datetime", Clock)
    basic, time = {0x0000: (0x20, 8, 1), 0x0007: (0x30, 4, 1)}, {
        0x0000: (0xE2, now, 4), 0x0001: (0x18, 0b0111, 1), 0x0002: (0x2B, offset & 0xFFFFFFFF, 4), 0x0007: (0x23, now + offset, 4)}
    table = {0x0000: basic, 0x000A: time, 0x0006: {}, 0x0019: {}}[which]
    ids = [t.uint16_t(E.bits("attr", 16)) for _ in range(2 if two else 1)]
    tsn = E.bits("tsn", 8)
    app.packet_received(world.packet(dev, world.zcl(0x00 if which != 6 else 0x08, tsn, 0x00, b"".join([le(E, a, 2) for a in ids])), cluster=which))
    loop.drain()
    data = one(E, app, dev, which, None)
    want = bytes([0x18 if which != 6 else 0x10, tsn, 0x01])
    for a in ids:
        rec = le(E, a, 2)
        hit = None
        for k in table:
            if a == k:
                hit = table[k]
        if hit is None:
            want += rec + b"\x86"
            E.reach("unsupported")
        else:
            want += rec + b"\x00" + bytes([hit[0]]) + le(E, hit[1], hit[2])
            E.reach("basic" if which == 0 else "time")
    E.check(data == want, "each attribute's value, or that it is unsupported, in order")
    E.reach("read")


def ias(E):
    loop, app, dev = make(E)
    failing(E, app)
    tsn = E.bits("tsn", 8)
    quiet = E.bool("quiet")
    cmd = E.choice("cmd", 2)
    payload = [bytes([E.bits("zs", 8), 0, 0, 0, 0, 0]), bytes([0x15, 0, 0x34, 0x12])][cmd]
    app.packet_received(world.packet(dev, world.zcl(0x09 | (0x10 if quiet else 0), tsn, cmd, payload), cluster=0x0500))
    loop.drain()
    if cmd == 0 and not quiet:
        data = one(E, app, dev, 0x0500, t.PacketPriority.LOW)
        E.check(data == bytes([0x10, tsn, 0x0B, 0x00, 0x00]), "a status change notification is confirmed")
        E.reach("ias")
    else:
        E.check(not app.sent, "an answer nobody asked for")
        E.reach("silent")


def ota(E, busy):
    loop, app, dev = make(E)
    dev.ota_in_progress = busy
    failing(E, app)
    rec = world.Rec("device_ota_image_query_result")
    dev.add_listener(rec)
    tsn = E.bits("tsn", 8)
    man, typ, ver = E.bits("man", 16), E.bits("type", 16), E.bits("version", 32)
    if E.bool("query"):
        hw = E.bool("hw")
        payload = bytes([1 if hw else 0]) + le(E, man, 2) + le(E, typ, 2) + le(E, ver, 4) + (b"\x01\x00" if hw else b"")
        app.packet_received(world.packet(dev, world.zcl(0x01, tsn, 0x01, payload), cluster=0x0019))
        loop.drain()
        if busy:
            E.check(not app.sent and not rec.events, "an update in progress answers by itself")
            E.reach("ota_busy")
            return
        data = one(E, app, dev, 0x0019, None)
        E.check(data == bytes([0x19, tsn, 0x02, 0x98]), "no image is available")
        if app.fail is None:
            E.check(rec.count("device_ota_image_query_result") == 1, "listeners learn of the query")
            cmd = rec.events[0][2]
            E.check(E.all(cmd.manufacturer_code == man, cmd.image_type == typ, cmd.current_file_version == ver), "and what was asked for")
        E.reach("ota_query")
    else:
        payload = b"\x00" + le(E, man, 2) + le(E, typ, 2) + le(E, ver, 4) + le(E, E.bits("offset", 32), 4) + bytes([E.bits("size", 8)])
        app.packet_received(world.packet(dev, world.zcl(0x01, tsn, 0x03, payload), cluster=0x0019))
        loop.drain()
        if busy:
            E.check(not app.sent, "an update in progress answers by itself")
            E.reach("ota_busy")
            return
        data = one(E, app, dev, 0x0019, None)
        E.check(data == bytes([0x19, tsn, 0x05, 0x95]), "a stray block request is told to abort")
        E.reach("ota_block")


def zdo(E, kind):
    loop, app, dev = make(E)
    failing(E, app)
    tsn = E.bits("tsn", 8)
    own = bytes(world.NCP.serialize())
    nwk0 = E.pick("own_nwk", [0x0000, 0x0001])
    app.state.node_info.nwk = t.NWK(nwk0)
    if kind == "nwk":
        k = E.choice("which", 9)
        # our own address, changed in at most one octet
        asked = [b ^ (E.bits("delta", 8) if i == k else 0) for i, b in enumerate(own)]
        same = bytes(asked) == own
        app.packet_received(world.packet(dev, bytes([tsn]) + bytes(asked) + bytes([E.bits("rt", 1), 0]), cluster=0x0000, src_ep=0, dst_ep=0, profile=0))
        loop.drain()
        if same:
            data = one(E, app, dev, 0x8000, t.PacketPriority.LOW, 0, 0)
            E.check(data[:12] == bytes([tsn, 0]) + own + bytes([nwk0, 0]), "our addresses")
            E.reach("nwk_addr")
        else:
            E.check(not app.sent, "only the device asked for answers")
            E.reach("silent")
    elif kind == "ieee":
        nwk = E.bits("nwk", 16)
        app.packet_received(world.packet(dev, bytes([tsn]) + le(E, nwk, 2) + bytes([E.bits("rt", 1), 0]), cluster=0x0001, src_ep=0, dst_ep=0, profile=0))
        loop.drain()
        if E.any(nwk == nwk0, nwk == 0xFFFC, nwk == 0xFFFD, nwk == 0xFFFF):
            data = one(E, app, dev, 0x8001, t.PacketPriority.LOW, 0, 0)
            E.check(data[:12] == bytes([tsn, 0]) + own + bytes([nwk0, 0]), "our addresses")
            E.reach("ieee_addr")
        else:
            E.check(not app.sent, "only the device asked for answers")
            E.reach("silent")
    elif kind == "match":
        profile = E.bits("profile", 16)
        n = E.choice("n", 3)
        lists = bytes([n]) + b"".join([le(E, E.bits("cluster", 16), 2) for _ in range(n)]) + b"\x00"
        app.packet_received(world.packet(dev, bytes([tsn]) + b"\xfd\xff" + le(E, profile, 2) + lists, cluster=0x0006, src_ep=0, dst_ep=0, profile=0))
        loop.drain()
        data = one(E, app, dev, 0x8006, t.PacketPriority.HIGH, 0, 0)
        E.check(data == bytes([tsn, 0, nwk0, 0]) + (b"\x01\x01" if profile == 260 else b"\x00"), "the matching endpoints")
        E.reach("match")
    else:
        rec = world.Rec("device_announce", "permit_duration")
        dev.zdo.add_listener(rec)
        if E.bool("announce"):
            payload = le(E, dev.nwk, 2) + bytes(dev.ieee.serialize()) + bytes([E.bits("cap", 8)])
            app.packet_received(world.packet(dev, bytes([tsn]) + payload, cluster=0x0013, src_ep=0, dst_ep=0, profile=0))
            loop.drain()
            E.check(rec.events == [("device_announce", dev)], "the announcement is passed on")
            E.reach("announce")
        else:
            d = E.bits("duration", 8)
            app.packet_received(world.packet(dev, bytes([tsn, d, 0]), cluster=0x0036, src_ep=0, dst_ep=0, profile=0))
            loop.drain()
            E.check(len(rec.events) == 1 and rec.events[0] == ("permit_duration", d) and not app.sent, "the permission is passed on")
            E.reach("permit")
    loop.advance(200)


def units(tier):
    out = [("report", report, {}), ("others", others, {}), ("ias", ias, {}), ("ota", ota, dict(busy=False)), ("ota_busy", ota, dict(busy=True))]
    for kind in ("nwk", "ieee", "match", "notify"):
        out.append((f"zdo:{kind}", zdo, dict(kind=kind)))
    for w in (0x0000, 0x000A, 0x0006, 0x0019):
        for two in (False, True):
            out.append((f"read:{w:04x}:{1 + two}", served, dict(which=w, two=two)))
    return out
