"""Received packets reach the right device, endpoint and cluster, once."""

import datetime
import warnings

import zigpy.types as t
import zigpy.endpoint
import zigpy.quirks
from props import world
from props.common import le
from zigpy.zcl import foundation as f

BOUNDS = ("two devices and the coordinator, any 16-bit or 64-bit source address; any endpoint and cluster; two or three packets at any times differing in "
          "any field; every degree of device initialization; relay lists of up to 4 arbitrary addresses; two handlers for frames held back, taking them or not")
OUTSIDE = "two devices with the same short address; packets exactly at the end of the duplicate window"
REACH = ["to_device", "unknown_nwk", "unknown_ieee", "coordinator", "dup", "dup_expired", "different", "in", "out", "nowhere", "held_back", "let_through",
         "init_started", "init_running", "relays", "relays_unknown", "lqi", "stranger", "shown", "made_ready", "old"]

UNKNOWN = t.EUI64.convert("00:0d:6f:00:0a:90:69:e7")


def report(n=1, tsn=5):
    """A complete attribute report, distinguished by its attribute."""
    return world.zcl(0x18, tsn, 0x0A, bytes([n, 0x70, 0x20, 1]))


def lookup(E):
    loop = E.loop()
    app = world.make_app()
    ncp = world.add_device(app, ieee=world.NCP, nwk=0)
    a = world.add_device(app, nwk=0x1234)
    b = world.add_device(app, ieee=world.IEEES[1], nwk=0x4321)
    devs = [ncp, a, b]
    recs = [world.Rec("general_command") for _ in devs]
    heard = world.Rec("handle_message")
    app.add_listener(heard)
    for d, r in zip(devs, recs):
        d.endpoints[1].in_clusters[6].add_listener(r)
        d.lqi, d.rssi = 1, -1
    if E.bool("short"):
        nwk = t.NWK(E.bits("nwk", 16))
        src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=nwk)
        target = [i for i, d in enumerate(devs) if d.nwk == nwk]
    else:
        ieee = E.pick("ieee", [world.NCP, a.ieee, b.ieee, UNKNOWN])
        src = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=ieee)
        target = [i for i, d in enumerate(devs) if d.ieee == ieee]
        nwk = None
    lqi = E.bits("lqi", 8) if E.bool("has_lqi") else None
    rssi = E.int("rssi", -128, 127) if E.bool("has_rssi") else None
    when = world.NOW + datetime.timedelta(hours=1)
    data = report()
    app.packet_received(world.packet(a, data, src=src, lqi=lqi, rssi=rssi, timestamp=when))
    loop.drain()
    for i, d in enumerate(devs):
        if i in target:
            E.check(recs[i].count("general_command") == 1, "the sender's cluster is told once")
            E.check(E.all(d.last_seen == when.timestamp(), d.lqi == (1 if lqi is None else lqi), d.rssi == (-1 if rssi is None else rssi)), "radio details are recorded")
            E.check(len(heard.events) == 1 and heard.events[0][1] is d and heard.events[0][2:] == (260, 6, 1, 1, data), "listeners are told about the frame")
            E.reach("coordinator" if i == 0 else "to_device")
            if lqi is not None:
                E.reach("lqi")
        else:
            E.check(E.all(recs[i].count("general_command") == 0, d.lqi == 1, d.rssi == -1, d.last_seen is None), "another device is affected")
    if target:
        E.check(not app.sent, "nothing needs to be sent")
    elif nwk is None:
        E.check(not app.sent and not heard.events, "an unknown long address is ignored")
        E.reach("unknown_ieee")
    else:
        E.check(not heard.events, "frames of unknown devices are not passed on")
        discovery(E, app, nwk)
        E.reach("unknown_nwk")


def stranger(E):
    """Whatever a device that is not known sends, it is looked for, and nothing else happens."""
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    a = world.add_device(app, nwk=0x1234)
    heard = world.Rec("handle_message", "device_joined", "device_left", "device_initialized")
    app.add_listener(heard)
    nwk = t.NWK(E.bits("nwk", 16))
    E.assume(nwk != 0)
    E.assume(nwk != 0x1234)
    cluster, src_ep, dst_ep, profile = E.pick("cluster", [0, 6, 0x0013, 0x0036, 0x8001, 0x8002]), E.bits("src_ep", 8), E.bits("dst_ep", 8), E.bits("profile", 16)
    data = E.pick("data", [report(), b"", b"\x01\x00", b"\x01\x80\x00"])
    dst = E.pick("dst", [t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress(0xFFFF))])
    app.packet_received(world.packet(a, data, src=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=nwk), dst=dst, src_ep=src_ep, dst_ep=dst_ep, profile=profile, cluster=cluster))
    loop.drain()
    E.check(not heard.events and len(app.devices) == 2 and a.last_seen is None, "frames of unknown devices are not passed on")
    discovery(E, app, nwk)
    E.reach("stranger")


def discovery(E, app, nwk):
    E.check(len(app.sent) == 1, "an unknown short address is asked for its long address once")
    p = app.sent[0]
    E.check(p.dst.addr_mode == t.AddrMode.Broadcast and p.dst.address == 0xFFFD, "broadcast to receivers that are awake")
    E.check(E.all(p.profile_id == 0, p.cluster_id == 0x0001, p.src_ep == 0, p.dst_ep == 0), "an IEEE address request")
    E.check(p.data.serialize()[1:] == le(E, nwk, 2) + b"\x00\x00", "asks about the unknown address")


FIELDS = ["data", "cluster", "dst_ep", "profile", "dst", "src", "radius", "options"]


def duplicates(E, field):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, ins=(0x0000, 0x0006))
    recs = [world.Rec("general_command") for _ in range(2)]
    dev.endpoints[1].in_clusters[6].add_listener(recs[0])
    dev.endpoints[1].in_clusters[0].add_listener(recs[1])
    base = dict(data=report(), cluster=6, dst_ep=1, profile=260)

    def send(k, change):
        kw = dict(base)
        if change:
            if field == "data":
                d = E.bits("byte", 8)
                kw["data"] = world.zcl(0x18, 5, 0x0A, bytes([1, 0x70, 0x20, d]))
                change = d != 1
            elif field == "cluster":
                kw["cluster"] = 0
            elif field == "dst_ep":
                e = E.int("dst_ep", 1, 240)
                kw["dst_ep"] = e
                change = e != 1
            elif field == "profile":
                p = E.bits("profile", 16)
                kw["profile"] = p
                change = p != 260
            elif field == "dst":
                kw["dst"] = E.pick("dst", [t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(1)), t.AddrModeAddress(addr_mode=t.AddrMode.Group, address=t.Group(0)),
                                           t.AddrModeAddress(addr_mode=t.AddrMode.Broadcast, address=t.BroadcastAddress(0xFFFF))])
            elif field == "src":
                kw["src"] = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=dev.ieee)
            elif field == "radius":
                kw["radius"] = 5
            elif field == "options":
                kw["tx_options"] = t.TransmitOptions.ACK
        app.packet_received(world.packet(dev, lqi=10 + k, rssi=-10 - k, timestamp=world.NOW + datetime.timedelta(seconds=k), tsn=E.bits("tsn", 8), **kw))
        loop.drain()
        E.check(E.all(dev.lqi == 10 + k, dev.rssi == -10 - k, dev.last_seen == (world.NOW + datetime.timedelta(seconds=k)).timestamp()), "radio details of repetitions count too")
        return change

    def seen():
        return recs[0].count("general_command") + recs[1].count("general_command")

    send(0, False)
    E.check(seen() == 1, "the first packet")
    dt = E.int("dt", 0, 25)
    E.assume(dt != 10)
    loop.advance(dt)
    changed = send(1, E.bool("change"))
    if changed or dt > 10:
        E.check(seen() == 2, "a different or later packet is handled")
        E.reach("different" if changed else "dup_expired")
        return
    E.check(seen() == 1, "a repetition is handled again")
    E.reach("dup")
    # the repetition does not prolong the window
    dt2 = E.int("dt2", 0, 25)
    E.assume(dt + dt2 != 10)
    loop.advance(dt2)
    send(2, False)
    E.check(seen() == (2 if dt + dt2 > 10 else 1), "the window runs from the first packet")


def where(E):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, endpoints=())
    recs = {}
    for e, ins, outs in ((1, (0x0006, 0x0008), (0x0019, 0x0008)), (7, (0x0006,), (0x0300,))):
        ep = dev.add_endpoint(e)
        ep.profile_id, ep.device_type, ep.status = 260, 1, zigpy.endpoint.Status.ZDO_INIT
        for side, ids in (("in", ins), ("out", outs)):
            for c in ids:
                cl = ep.add_input_cluster(c) if side == "in" else ep.add_output_cluster(c)
                recs[e, side, c] = r = world.Rec("general_command")
                cl.add_listener(r)
    src_ep = E.bits("src_ep", 8)
    cluster = t.ClusterId(E.bits("cluster", 16))
    dst_ep = E.int("dst_ep", 1, 255)
    app.packet_received(world.packet(dev, report(), src_ep=src_ep, dst_ep=dst_ep, cluster=cluster))
    loop.drain()
    expect = None
    for e in (1, 7):
        for side in ("out", "in"):
            for c in (0x0006, 0x0008, 0x0019, 0x0300):
                if (e, side, c) in recs and E.all(src_ep == e, cluster == c):
                    expect = (e, side, c)
    for k, r in recs.items():
        E.check(r.count("general_command") == (1 if k == expect else 0), "the cluster of the sending endpoint, server side first, is told")
    E.reach("nowhere" if expect is None else expect[1])


def uninit(E):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, endpoints=(), init=False)
    if E.bool("described"):
        dev.node_desc = world.node_desc()
    eps = E.choice("endpoints", 4)  # none, one new, one of two done, done
    for n in range(min(eps, 2)):
        ep = dev.add_endpoint(n + 1)
        ep.add_input_cluster(0)
        ep.add_input_cluster(6)
        ep.status = zigpy.endpoint.Status.ZDO_INIT if eps == 3 or (eps == 2 and n == 0) else zigpy.endpoint.Status.NEW
    running = E.bool("running")
    if running:
        if dev.is_initialized:
            E.assume(False)
        dev.schedule_initialize()
        loop.drain()
    before = len(app.sent)
    kind = E.choice("kind", 4)
    recs = [world.Rec("general_command"), world.Rec("general_command"), world.Rec("zdo_node_desc_req")]
    if eps:
        dev.endpoints[1].in_clusters[0].add_listener(recs[0])
        dev.endpoints[1].in_clusters[6].add_listener(recs[1])
    dev.zdo.add_listener(recs[2])
    was_init = dev.is_initialized
    E.check(was_init == (eps == 3 and dev.node_desc is not None), "a device is initialized once it and all its endpoints are described")
    if kind == 0:
        app.packet_received(world.packet(dev, bytes([9, 0x34, 0x12]), cluster=0x0002, src_ep=0, dst_ep=0, profile=0))
    elif kind == 1:
        app.packet_received(world.packet(dev, report(), cluster=0, dst_ep=E.int("dst_ep", 1, 255)))
    elif kind == 2:
        app.packet_received(world.packet(dev, report(), cluster=6, dst_ep=E.int("dst_ep", 1, 255)))
    else:
        app.packet_received(world.packet(dev, bytes([9, 0x34, 0x12]), cluster=0x0002, src_ep=1, dst_ep=0, profile=0))
    loop.drain()
    through = kind in (0, 3) or eps == 3 or (eps > 0 and kind == 1)
    told = sum(r.count("general_command") for r in recs[:2]) + recs[2].count("zdo_node_desc_req")
    if through:
        if kind != 3:
            E.check(told == (1 if kind == 0 or eps else 0), "a frame usable during initialization is handled")
        E.check(dev.last_seen == world.NOW.timestamp(), "its radio details are recorded")
        E.reach("let_through")
    else:
        E.check(told == 0, "a frame is handled although its endpoint is not known yet")
        E.reach("held_back")
    new = len(app.sent) - before
    if was_init or running:
        E.check(new == 0, "initialization is started again")
        E.reach("init_running" if running else "let_through")
    else:
        E.check(new == 1 and dev.initializing, "initialization is started")
        E.reach("init_started")
    if eps and kind == 2 and not through:
        E.check(recs[1].count("general_command") == 0, "held back")


def relays(E):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    a = world.add_device(app, nwk=0x1234)
    b = world.add_device(app, ieee=world.IEEES[1], nwk=0x4321)
    rec = world.Rec("device_relays_updated")
    a.add_listener(rec)
    n = E.choice("n", 5)
    given = [t.NWK(E.bits("relay", 16)) for _ in range(n)]
    nwk = t.NWK(E.bits("nwk", 16))
    app.handle_relays(nwk, given)
    loop.drain()
    if nwk == 0x1234:
        want = []
        for i, r in enumerate(given):
            if E.all(r != 0, *[r != p for p in given[:i]]):
                want.append(r)
        E.check(a.relays == want, "relays in order, without the coordinator and repetitions")
        E.check(isinstance(a.relays, t.Relays) and rec.count("device_relays_updated") == 1 and rec.events[0][1] == want, "listeners learn the relays")
        E.check(b.relays is None, "another device is affected")
        E.reach("relays")
    elif nwk == 0x4321 or nwk == 0:
        E.check(a.relays is None, "another device is affected")
    else:
        E.check(a.relays is None and b.relays is None, "another device is affected")
        discovery(E, app, nwk)
        E.reach("relays_unknown")


HANDLERS = [None, None]


def first(*a):
    return HANDLERS[0] is not None and HANDLERS[0](*a)


def second(*a):
    return HANDLERS[1] is not None and HANDLERS[1](*a)


for h in (first, second, first):
    zigpy.quirks.register_uninitialized_device_message_handler(h)


def handlers(E):
    """Frames held back are shown to those who asked for them, in order, until one takes it; it may put a ready device in place."""
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, endpoints=(), init=False)
    held = E.bool("held")  # or let through
    if E.bool("endpoints") or not held:
        dev.add_endpoint(1).add_input_cluster(0)
    shown = []
    takes = E.choice("takes", 3)
    swap = E.bool("ready")

    def handler(i):
        def f(*a):
            shown.append((i, a))
            if takes == i and swap:
                new = world.add_device(app, endpoints=(1,))
                E.check(app.devices[dev.ieee] is new, "the device in place")
            return E.pick("yes", [True, 1]) if takes == i else E.pick("no", [False, None])
        return f

    profile, src_ep, dst_ep = E.bits("profile", 16), E.bits("src_ep", 8), E.int("dst_ep", 1, 255)
    data = report()
    HANDLERS[:] = [handler(0), handler(1)]
    try:
        app.packet_received(world.packet(dev, data, cluster=6 if held else 0, src_ep=src_ep, dst_ep=dst_ep, profile=profile))
    finally:
        HANDLERS[:] = [None, None]
    loop.drain()
    if not held:
        E.check(not shown, "what is let through is not shown")
        return
    E.check([i for i, _ in shown] == ([0] if takes == 0 else [0, 1]), "each in turn until one takes it")
    for _, a in shown:
        E.check(E.all(a[0] is dev, a[1] == profile, a[2] == 6, a[3] == src_ep, a[4] == dst_ep, a[5] == data, len(a) == 6), "the frame as received")
    if takes < 2 and swap:
        E.check(not app.sent and not dev.initializing, "a device made ready is not asked")
        E.reach("made_ready")
    else:
        E.check(len(app.sent) == 1 and dev.initializing, "a device that is not ready is asked")
        E.reach("shown")


def old(E, to):
    """Frames handed over field by field reach the same place as packets."""
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, endpoints=(1, 2), outs=(0x0019,))
    other = world.add_device(app, ieee=world.IEEES[1], nwk=0x4321, endpoints=(1, 2), outs=(0x0019,))
    recs = {}
    for d in (dev, other):
        for e in (1, 2):
            for side in (d.endpoints[e].in_clusters, d.endpoints[e].out_clusters):
                for c, cl in side.items():
                    recs[d.nwk, e, c] = world.Rec("general_command")
                    cl.add_listener(recs[d.nwk, e, c])
    z = world.Rec("zdo_node_desc_req")
    dev.zdo.add_listener(z)
    heard = world.Rec("handle_message")
    app.add_listener(heard)
    mode = E.pick("mode", [None, t.AddrMode.NWK, t.AddrMode.IEEE])
    kw = {} if mode is None else {"dst_addressing": mode}
    zdo = E.bool("zdo")
    src_ep = 0 if zdo else E.pick("src_ep", [1, 2, 3])
    dst_ep = 0 if zdo else E.int("dst_ep", 1, 255)
    cluster = 0x0002 if zdo else E.pick("cluster", [0, 6, 0x0019, 8])
    data = bytes([9, 0x34, 0x12]) if zdo else report(E.bits("attr", 8))
    profile = 0 if zdo else E.bits("profile", 16)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if to == "app":
            app.handle_message(dev, profile, cluster, src_ep, dst_ep, data, **kw)
        else:
            dev.handle_message(profile, cluster, src_ep, dst_ep, data, **kw)
    loop.drain()
    for k, r in recs.items():
        E.check(r.count("general_command") == (1 if not zdo and k == (dev.nwk, src_ep, cluster) else 0), "the cluster of the sending device and endpoint is told")
    E.check(z.count("zdo_node_desc_req") == (1 if zdo else 0), "the device object is told")
    if to == "app":
        E.check(len(heard.events) == 1 and heard.events[0][1] is dev and E.all(heard.events[0][2] == profile, heard.events[0][3:] == (cluster, src_ep, dst_ep, data)), "and listeners")
    E.check(dev.last_seen is not None and other.last_seen is None, "it was heard just now")
    E.reach("old")


def units(tier):
    return [("lookup", lookup, {}), ("stranger", stranger, {}), ("where", where, {}), ("uninit", uninit, {}), ("relays", relays, {}), ("handlers", handlers, {}), ("old/app", old, {"to": "app"}), ("old/device", old, {"to": "device"})] + [(f"dup:{x}", duplicates, dict(field=x)) for x in FIELDS]
