"""Joining, announcing, leaving and removal of devices."""

import asyncio

import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from props.common import le

BOUNDS = ("histories of 2 joins of any kind and of 3 (thorough 4) joins, announcements, address responses and leaves of two known devices in any state of initialization and an unknown one, "
          "with arbitrary short addresses (in histories of 3: the same or another); removal of any device in a network of 3 with any neighbour tables, and every outcome of the leave request")
OUTSIDE = "two devices sharing a short address; a device that comes back while it is being removed; what the radio does for force_remove"
REACH = ["new", "moved", "reinit", "rescan", "quiet", "left", "unknown_left", "annce", "addr_rsp", "addr_rsp_failed", "removed", "remove_failed", "remove_timeout",
         "parents", "unknown_remove", "remove_init", "sleepy"]


def make(E, states):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    devs = []
    for i, s in enumerate(states):
        dev = world.add_device(app, ieee=world.IEEES[i], nwk=0x1230 + i, ins=(0, 4, 6), init=s == "full")
        if s == "partial":
            # knows its node descriptor but not its endpoints
            dev.node_desc = world.node_desc()
            dev.endpoints[1].profile_id = None
        devs.append(dev)
    rec = world.Rec("device_joined", "device_left", "device_initialized", "device_removed")
    app.add_listener(rec)
    return loop, app, devs, rec


EVENTS = ["join", "announce", "rsp", "leave", "rejoin", "rsp_short", "rsp_failed"]


def joins(E, states, depth, events, first=None):
    loop, app, devs, rec = make(E, states)
    known = {world.IEEES[i]: 0x1230 + i for i in range(len(states))}
    full = {world.IEEES[i]: s == "full" for i, s in enumerate(states)}
    ask = {world.IEEES[i]: (0x0004 if s == "partial" else 0x0002) for i, s in enumerate(states)}
    for step in range(depth):
        kind = first if first and step == 0 else E.pick("event", EVENTS[:events])
        who = E.choice("who", 3) if events > 3 else E.pick("who", [0, 2])
        ieee = world.IEEES[who]
        rec.events.clear()
        app.sent.clear()
        if kind == "leave":
            app.handle_leave(t.NWK(E.bits("nwk", 16)), ieee)
            loop.drain()
            E.check(rec.events == ([("device_left", app.devices[ieee])] if ieee in known else []), "leaving is announced for known devices")
            E.check(not app.sent, "nothing is asked")
            E.check(set(app.devices) == {world.NCP, *known}, "a device that left stays known")
            E.reach("left" if ieee in known else "unknown_left")
            continue
        nwk = E.int("nwk", 1, 0xFFF7) if events > 3 else E.pick("nwk", [0x1230 + who, 0x2000 + 16 * step + who])
        for other, n in known.items():
            if other != ieee:
                E.assume(n != nwk)
        rejoin = True
        success = True
        if kind in ("join", "rejoin"):
            rejoin = kind == "rejoin"
            app.handle_join(t.NWK(nwk), ieee, t.NWK(0), handle_rejoin=rejoin)
        else:
            src = t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(nwk))
            tsn = E.bits("tsn", 8)
            if kind == "announce":
                data, cluster = le(E, tsn, 1) + le(E, nwk, 2) + ieee.serialize() + le(E, E.bits("caps", 8), 1), 0x0013
                E.reach("annce")
            else:
                status = E.pick("status", [0x80, 0x81]) if kind == "rsp_failed" else 0
                data = le(E, tsn, 1) + bytes([status]) + ieee.serialize() + le(E, nwk, 2) + b"\x00\x00"
                if kind == "rsp_short":
                    data = data[:-2]
                cluster = E.pick("rsp", [0x8000, 0x8001]) if kind != "rsp" else 0x8001
                success, rejoin = status == 0, False
                src = t.AddrModeAddress(addr_mode=t.AddrMode.IEEE, address=world.NCP)
                E.reach("addr_rsp" if success else "addr_rsp_failed")
            app.packet_received(t.ZigbeePacket(
                src=src, src_ep=0, dst=t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)), dst_ep=0, profile_id=0, cluster_id=cluster,
                tsn=tsn, data=t.SerializableBytes(data), timestamp=world.NOW))
        loop.drain()
        if not success:
            E.check(not rec.events and not app.sent, "an address that could not be resolved changes nothing")
            continue
        new = ieee not in known
        moved = not new and known[ieee] != nwk
        known[ieee] = nwk
        E.check(set(app.devices) == {world.NCP, *known}, "the devices known")
        for i, n in known.items():
            E.check(app.devices[i].nwk == n, "the address of a device is the one it last told")
            E.check(app.get_device(ieee=i) is app.devices[i] and app.get_device(nwk=n) is app.devices[i], "it is found by both addresses")
        dev = app.devices[ieee]
        joined = new or bool(moved)
        E.check([e[0] is dev for e in rec.of("device_joined")] == [True] * joined, "a device is announced when it is new or has a new address")
        E.check(dev.last_seen is not None, "it has been seen")
        ours = [p for p in app.sent if p.dst.address == nwk]
        E.check(len(ours) == len(app.sent), "only the device is asked for anything")
        if full.get(ieee, False):
            if joined:
                E.check([e[0] is dev for e in rec.of("device_initialized")] == [True] and not app.sent, "a known device with a new address is ready at once")
                E.reach("moved")
            elif rejoin:
                E.check(len(ours) == 1 and ours[0].cluster_id == 4 and not rec.events, "the groups of a device that came back are looked up again")
                E.reach("rescan")
            else:
                E.check(not app.sent and not rec.events, "nothing happens")
                E.reach("quiet")
        else:
            full[ieee] = False
            E.check(len(ours) == 1 and ours[0].cluster_id == ask.get(ieee, 0x0002) and dev.initializing, "an unfinished device is initialized, from the start")
            E.check(rec.count("device_initialized") == 0, "it is not ready yet")
            E.reach("new" if new else "reinit")
    for d in app.devices.values():
        d.cancel_initialization()
        if d._group_scan_task is not None:
            d._group_scan_task.cancel()
    loop.drain()


ERRORS = ["reply", "refused", "delivery", "controller", "parsing", "api", "never"]


def removal(E, sleepy, init):
    loop, app, devs, rec = make(E, ("full", "full", "full"))
    dev = devs[0]
    if init == "no":
        dev.node_desc = None
    else:
        dev.node_desc = world.node_desc(sleepy)
        if init == "running":
            for ep in dev.non_zdo_endpoints:
                ep.status = 0
                ep.profile_id = None
            task = dev.schedule_initialize()
            loop.drain()
            E.check(dev.initializing, "initialization is running")
    app.sent.clear()
    parents = []
    for p in (devs[1], devs[2]):
        k = E.choice("neighbours", 3)
        ieees = [[], [devs[3 - devs.index(p)].ieee], [world.IEEES[4], dev.ieee]][k]
        app.topology.neighbors[p.ieee] = [
            zdot.Neighbor(extended_pan_id=t.EUI64.convert("00" + ":00" * 7), ieee=i, nwk=t.NWK(1), device_type=2, rx_on_when_idle=0, relationship=1, reserved1=0,
                          permit_joining=0, reserved2=0, depth=1, lqi=1) for i in ieees]
        if k == 2:
            parents.append(p)
    children, rejoin = E.bool("children"), E.bool("rejoin")
    how = E.pick("how", ERRORS)
    exc = dict(delivery=zigpy.exceptions.DeliveryError("x"), controller=zigpy.exceptions.ControllerException("x"), parsing=zigpy.exceptions.ParsingError("x"),
               api=zigpy.exceptions.APIException("x")).get(how)
    if exc is not None:
        app.fail = lambda p: exc if p.dst.address == dev.nwk else None
    loop.run(app.remove(dev.ieee, remove_children=children, rejoin=rejoin))
    E.check(rec.events == [("device_removed", dev)], "the removal is announced")
    loop.drain()
    E.check(not dev.initializing, "its initialization ends")
    if init == "running":
        E.reach("remove_init")
    ours = [p for p in app.sent if p.dst.address == dev.nwk]
    opts = (0x40 if children else 0) | (0x80 if rejoin else 0)
    E.check(len(ours) == 1 and ours[0].cluster_id == 0x0034, "the device is asked to leave")
    E.check(ours[0].data.serialize()[1:] == dev.ieee.serialize() + bytes([opts]), "in the way asked for")
    others = [p for p in app.sent if p.dst.address != dev.nwk]
    is_sleepy = sleepy and init != "no"
    want = parents if is_sleepy else []
    E.check([p.dst.address for p in others] == [p.nwk for p in want], "the parents of a sleeping device are asked too")
    for p in others:
        E.check(p.cluster_id == 0x0034 and p.data.serialize()[1:] == dev.ieee.serialize() + bytes([0x40 | (0x80 if rejoin else 0)]), "to make it leave")
        E.reach("parents")
    if is_sleepy:
        E.reach("sleepy")
    if how in ("reply", "refused"):
        E.check(app.devices.get(dev.ieee) is dev, "it is known until it has answered")
        app.packet_received(world.packet(dev, bytes([ours[0].tsn, 0 if how == "reply" else 0x84]), cluster=0x8034, src_ep=0, dst_ep=0, profile=0))
        loop.drain()
        E.reach("removed")
    elif how == "never":
        E.check(app.devices.get(dev.ieee) is dev, "it is known until it has answered")
        wait = 28 if is_sleepy or init == "no" else 5
        if init == "no":
            wait = 7
        loop.advance(wait - 1)
        E.check(app.devices.get(dev.ieee) is dev, "it is given time to answer")
        loop.advance(1)
        E.reach("remove_timeout")
    else:
        E.reach("remove_failed")
    E.check(dev.ieee not in app.devices, "afterwards it is forgotten, however that went")
    E.check(set(app.devices) == {world.NCP, devs[1].ieee, devs[2].ieee}, "the others stay")
    loop.advance(40)
    E.check(rec.events == [("device_removed", dev)], "the removal is announced once")
    n = len(app.sent)
    loop.run(app.remove(world.IEEES[5]))
    loop.drain()
    E.check(len(app.sent) == n and rec.count("device_removed") == 1, "removing an unknown device does nothing")
    E.reach("unknown_remove")


def units(tier):
    for s in (("full", "new"), ("partial", "full"), ("new", "partial")):
        yield f"joins-{s[0]}-{s[1]}", joins, dict(states=s, depth=2, events=7)
        for first in EVENTS[:3]:
            yield f"longer-{s[0]}-{s[1]}-{first}", joins, dict(states=s, depth=3 if tier == "quick" else 4, events=3, first=first)
    for sleepy in (False, True):
        for init in ("yes", "running", "no"):
            yield f"remove-{sleepy}-{init}", removal, dict(sleepy=sleepy, init=init)
