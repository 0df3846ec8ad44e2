"""What is put into packets that are sent."""

import zigpy.config as conf
import zigpy.types as t
import zigpy.zdo
import zigpy.zdo.types as zdot
from props import world
from props.common import be, le
from zigpy.zcl import foundation as f

BOUNDS = ("any addresses, endpoints, profiles, clusters, priorities, options and payloads of up to 3 bytes; up to 3 relays; "
          "six commands of three clusters in both directions; ZDO requests with any arguments; groups; broadcasts")
OUTSIDE = "what radio libraries do with a packet"
REACH = ["unicast", "ieee", "route", "ack", "noack", "zll", "lightlink", "command", "reply", "group", "broadcast", "mrequest", "zdo", "bind",
         "leave", "zdo_broadcast", "wrap"]


def make(E, updates=None, **kw):
    loop = E.loop()
    app = world.make_app(updates)
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, **kw)
    app.sent.clear()
    return loop, app, dev


def own(E, app):
    """Give the coordinator an arbitrary address."""
    nwk = t.NWK(E.int("own_nwk", 0, 0xFFF7))
    app.state.node_info.nwk = nwk
    return nwk


def tri(E, name):
    return E.pick(name, [None, False, True])


def unicast(E, kind, described):
    routing = E.bool("source_routing")
    loop, app, dev = make(E, {conf.CONF_SOURCE_ROUTING: routing}, end_device=kind == "end")
    if not described:
        dev.node_desc = None
    mine = own(E, app)
    dev.nwk = t.NWK(E.bits("nwk", 16))
    relays = E.pick("relays", [None, 0, 1, 3])
    if relays is not None:
        dev._relays = t.Relays([t.NWK(E.bits("relay", 16)) for _ in range(relays)])
    prof, clus, sep, dep = E.bits("profile", 16), E.bits("cluster", 16), E.bits("src_ep", 8), E.bits("dst_ep", 8)
    seq, data, prio = E.bits("seq", 8), E.bytes_upto("data", 0, 3), E.int("priority", -1, 1)
    ieee, ack, expect = E.bool("use_ieee"), tri(E, "ack"), E.bool("expect")
    task = loop.spawn(dev.request(prof, clus, sep, dep, seq, data, expect_reply=expect, use_ieee=ieee, ask_for_ack=ack, priority=prio))
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    if ieee:
        E.check(E.all(p.dst.addr_mode == t.AddrMode.IEEE, p.dst.address == dev.ieee, p.src.addr_mode == t.AddrMode.IEEE, p.src.address == world.NCP),
                "long addresses if asked for")
        E.reach("ieee")
    else:
        E.check(E.all(p.dst.addr_mode == t.AddrMode.NWK, p.dst.address == dev.nwk, p.src.addr_mode == t.AddrMode.NWK, p.src.address == mine),
                "short addresses otherwise")
    E.check(E.all(p.profile_id == prof, p.cluster_id == clus, p.src_ep == sep, p.dst_ep == dep, p.tsn == seq, p.priority == prio), "the fields of the request")
    E.check(p.data.serialize() == data, "the payload")
    want_ack = ack if ack is not None else not expect
    E.check(bool(p.tx_options & t.TransmitOptions.ACK) == want_ack, "acknowledgement as asked for, or if no reply would show arrival")
    E.check(not p.tx_options & ~t.TransmitOptions.ACK, "no other options")
    E.reach("ack" if want_ack else "noack")
    E.check(bool(p.extended_timeout) == (expect and (kind == "end" or not described)), "end devices are given more time to reply")
    if routing and relays is not None:
        E.check(list(p.source_route) == list(dev._relays)[::-1], "the source route reverses the relays of the last packet")
        E.reach("route")
    else:
        E.check(p.source_route is None, "no source route")
    E.check(E.all(p.radius is None or p.radius == 0, p.non_member_radius is None or p.non_member_radius == 0), "not restricted in radius")
    task.cancel()
    loop.drain()
    E.reach("unicast")


def endpoint(E, reply):
    """Endpoints speak with their own number and profile, ZLL endpoints mostly ZHA."""
    loop, app, dev = make(E, endpoints=())
    num = E.int("endpoint", 1, 254)
    ep = dev.add_endpoint(num)
    prof, clus, cmd, seq = E.bits("profile", 16), E.bits("cluster", 16), E.bits("command", 8), E.bits("seq", 8)
    ep.profile_id = prof
    data, prio, ieee, ack = E.bytes("data", 2), E.int("priority", -1, 1), E.bool("use_ieee"), tri(E, "ack")
    expect = E.bool("expect")
    kw = dict(command_id=cmd, use_ieee=ieee, ask_for_ack=ack, priority=prio, expect_reply=expect)
    task = loop.spawn((ep.reply if reply else ep.request)(clus, seq, data, **kw))
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    light = E.all(clus == 0x1000, cmd < 0x40)
    want = E.ite(E.all(prof == 0xC05E, E.not_(light)), 0x0104, prof)
    E.check(p.profile_id == want, "the endpoint's profile, ZHA for anything but commissioning on ZLL endpoints")
    E.check(E.all(p.src_ep == num, p.dst_ep == num, p.cluster_id == clus, p.tsn == seq, p.priority == prio), "the fields of the request")
    E.check(p.data.serialize() == data, "the payload")
    E.check(p.dst.addr_mode == (t.AddrMode.IEEE if ieee else t.AddrMode.NWK), "the address asked for")
    E.check(bool(p.tx_options & t.TransmitOptions.ACK) == (ack if ack is not None else not expect), "acknowledgement")
    E.check(task.done() == (not expect), "a reply is waited for if expected")
    if E.concrete(prof == 0xC05E) if not E.symbolic else bool(prof == 0xC05E):
        E.reach("lightlink" if bool(light) else "zll")
    task.cancel()
    loop.drain()


COMMANDS = [
    # cluster, client side, method, arguments, payload
    (0x0006, False, "on", [], lambda E, a: b"", 1),
    (0x0008, False, "move_to_level", ["level", "time"], lambda E, a: le(E, a[0], 1) + le(E, a[1], 2), 0),
    (0x0500, False, "enroll_response", ["code", "zone"], lambda E, a: le(E, a[0], 1) + le(E, a[1], 1), 0),
    (0x0500, True, "status_change_notification", ["status", "ext", "zone", "delay"], lambda E, a: le(E, a[0], 2) + le(E, a[1], 1) + le(E, a[2], 1) + le(E, a[3], 2), 0),
    (0x0004, True, "get_membership_response", ["capacity", "group"], lambda E, a: le(E, a[0], 1) + b"\x01" + le(E, a[1], 2), 2),
    (0x0000, False, "reset_fact_default", [], lambda E, a: b"", 0),
]
WIDTH = {"level": 8, "time": 16, "status": 16, "delay": 16, "group": 16}


def command(E, i, client_side):
    cid, is_reply, name, args, payload, num = COMMANDS[i]
    loop, app, dev = make(E, ins=(0, 4, 6, 8, 0x500), outs=(0, 4, 6, 8, 0x500))
    ep = dev.endpoints[1]
    cl = (ep.out_clusters if client_side else ep.in_clusters)[cid]
    vals = [E.bits(a, WIDTH.get(a, 8)) if a not in ("zone",) else E.int("zone", 0, 0xFE) for a in args]
    given = list(vals)
    if name == "get_membership_response":
        given = [vals[0], [t.Group(vals[1])]]
    manuf = E.pick("manufacturer", [None, -1])
    if manuf is not None:
        manuf = E.bits("code", 16)
    tsn = E.pick("tsn", [None, -1])
    if tsn is not None:
        tsn = E.bits("seq", 8)
    start = E.bits("before", 8)
    dev._send_sequence = start
    kw = {} if is_reply else dict(expect_reply=E.bool("expect"))
    how = E.choice("how", 3)
    if how == 0:
        meth = getattr(cl, name)
    else:
        meth = lambda *a, **k: (cl.client_command if is_reply else cl.command)(num, *a, **k)  # noqa: E731
    if how == 2:
        schema = (cl.client_commands if is_reply else cl.server_commands)[num].schema
        named = {fld.name: v for fld, v in zip(schema.fields, given)}
        coro = meth(**named, manufacturer=manuf, tsn=tsn, **kw)
    else:
        coro = meth(*given, manufacturer=manuf, tsn=tsn, **kw)
    task = loop.spawn(coro)
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    seq = tsn if tsn is not None else (start + 1) % 256
    E.check(p.tsn == seq, "the sequence number given, else the next")
    fc = 0x01 | (0x04 if manuf is not None else 0) | (0x08 if client_side else 0) | (0x10 if is_reply or client_side else 0)
    want = bytes([fc]) + (b"" if manuf is None else le(E, manuf, 2)) + le(E, seq, 1) + bytes([num]) + payload(E, vals)
    E.check(p.data.serialize() == want, "header and arguments of the command")
    E.check(E.all(p.cluster_id == cid, p.profile_id == 260, p.src_ep == 1, p.dst_ep == 1), "addressed to the cluster")
    E.reach("reply" if is_reply else "command")
    task.cancel()
    loop.drain()


def sequences(E):
    """Numbers follow each other and start again after 255."""
    loop, app, dev = make(E)
    start = E.bits("start", 8)
    dev._send_sequence = app._send_sequence = start
    n = E.int("n", 1, 3)
    k = int(E.choice("k", 3)) + 1
    E.assume(n == k)
    got = [dev.get_sequence() for _ in range(k)]
    E.check(E.all(*[s == (start + 1 + i) % 256 for i, s in enumerate(got)]), "numbers follow each other")
    got = [app.get_sequence() for _ in range(k)]
    E.check(E.all(*[s == (start + 1 + i) % 256 for i, s in enumerate(got)]), "numbers follow each other")
    g = app.groups.add_group(t.Group(1), suppress_event=True)
    g._send_sequence = start
    got = [g.get_sequence() for _ in range(k)]
    E.check(E.all(*[s == (start + 1 + i) % 256 for i, s in enumerate(got)]), "numbers follow each other")
    if start == 255:
        E.reach("wrap")


def group(E, manufacturer):
    loop, app, dev = make(E)
    gid = t.Group(E.bits("group", 16))
    g = app.groups.add_group(gid, suppress_event=True)
    start = E.bits("before", 8)
    g._send_sequence = start
    level, tr = E.bits("level", 8), E.bits("time", 16)
    manuf = E.bits("code", 16) if manufacturer else None
    by = E.bool("by_name")
    cl = g.endpoint.level if by else g.endpoint[8]
    res = loop.run(cl.move_to_level(level, tr, manufacturer=manuf) if manufacturer else cl.move_to_level(level, tr))
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    seq = (start + 1) % 256
    E.check(E.all(p.dst.addr_mode == t.AddrMode.Group, p.dst.address == gid), "sent to the group")
    E.check(E.all(p.src_ep == 1, p.profile_id == 260, p.cluster_id == 8, p.tsn == seq), "from the coordinator's endpoint with the ZHA profile")
    E.check(p.dst_ep is None, "to no endpoint in particular")
    E.check(E.all(p.radius == 0, p.non_member_radius == 3), "everywhere in the network")
    head = bytes([0x05]) + le(E, manuf, 2) if manufacturer else b"\x01"
    E.check(p.data.serialize() == head + le(E, seq, 1) + b"\x00" + le(E, level, 1) + le(E, tr, 2), "header and arguments of the command")
    E.check(E.all(res.status == 0, res.command_id == 0), "a successful default response to the command stands in for replies")
    E.reach("group")


def group_command(E):
    """The stand-in reply is to the command that was sent."""
    loop, app, dev = make(E)
    g = app.groups.add_group(t.Group(0x1002), suppress_event=True)
    i = E.choice("command", 3)
    manuf = E.bits("code", 16) if E.bool("manufacturer") else None
    cl = g.endpoint.on_off
    res = loop.run([cl.off, cl.on, cl.toggle][i](manufacturer=manuf))
    E.check(E.all(res.status == 0, res.command_id == i), "a default response to the command that was sent")
    E.check(g.endpoint[6] is g.endpoint[6] and g.endpoint.on_off is cl, "a cluster of a group is one object")
    E.check(E.raises(KeyError, lambda: g.endpoint[0xFC77]) and E.raises(AttributeError, lambda: g.endpoint.nonsense), "unknown clusters are refused")
    E.reach("group")


def multicast(E, kind):
    loop, app, dev = make(E)
    mine = own(E, app)
    prof, clus, sep, dep = E.bits("profile", 16), E.bits("cluster", 16), E.bits("src_ep", 8), E.bits("dst_ep", 8)
    seq, data, prio, radius = E.bits("seq", 8), E.bytes_upto("data", 0, 3), E.int("priority", -1, 1), E.bits("radius", 8)
    if kind == "mrequest":
        gid, non = E.bits("group", 16), E.bits("non_member", 8)
        loop.run(app.mrequest(gid, prof, clus, sep, seq, data, hops=radius, non_member_radius=non, priority=prio))
    else:
        addr = E.pick("to", [0xFFFF, 0xFFFD, 0xFFFC, 0xFFFB])
        loop.run(app.broadcast(prof, clus, sep, dep, 0, radius, seq, data, broadcast_address=t.BroadcastAddress(addr), priority=prio))
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    E.check(E.all(p.src.addr_mode == t.AddrMode.NWK, p.src.address == mine), "from the coordinator")
    E.check(E.all(p.src_ep == sep, p.profile_id == prof, p.cluster_id == clus, p.tsn == seq, p.priority == prio, p.radius == radius), "the fields of the request")
    E.check(p.data.serialize() == data, "the payload")
    E.check(not p.tx_options, "no options")
    if kind == "mrequest":
        E.check(E.all(p.dst.addr_mode == t.AddrMode.Group, p.dst.address == gid, p.non_member_radius == non), "to the group")
        E.reach("mrequest")
    else:
        E.check(E.all(p.dst.addr_mode == t.AddrMode.Broadcast, p.dst.address == addr, p.dst_ep == dep), "to everyone asked for")
        E.reach("broadcast")


ZDO = [
    ("Node_Desc_req", 0x0002, ["nwk"]), ("Simple_Desc_req", 0x0004, ["nwk", "u8"]), ("Active_EP_req", 0x0005, ["nwk"]),
    ("Mgmt_Lqi_req", 0x0031, ["u8"]), ("Mgmt_Permit_Joining_req", 0x0036, ["u8", "u8"]), ("NWK_addr_req", 0x0000, ["eui", "kind", "u8"]),
    ("Bind_rsp", 0x8021, ["status"]), ("Mgmt_Leave_rsp", 0x8034, ["status"]),
]


def zdo(E, i):
    name, cid, args = ZDO[i]
    loop, app, dev = make(E)
    start = E.bits("before", 8)
    dev._send_sequence = start
    vals, body = [], b""
    for a in args:
        if a == "eui":
            raw = E.bytes("eui", 8)
            vals.append(t.EUI64.deserialize(raw)[0])
            body += raw
        elif a == "nwk":
            v = E.bits("nwk", 16)
            vals.append(v)
            body += le(E, v, 2)
        elif a == "kind":
            v = E.int("kind", 0, 1)
            vals.append(v)
            body += le(E, v, 1)
        else:
            v = E.bits("v", 8)
            vals.append(v)
            body += le(E, v, 1)
    kw = {}
    is_reply = cid >= 0x8000
    seq = (start + 1) % 256
    if is_reply and E.bool("tsn"):
        seq = kw["tsn"] = E.bits("seq", 8)
    prio, ieee = E.int("priority", -1, 1), E.bool("ieee")
    task = loop.spawn(getattr(dev.zdo, name)(*vals, priority=prio, use_ieee=ieee, **kw))
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    E.check(E.all(p.profile_id == 0, p.cluster_id == cid, p.src_ep == 0, p.dst_ep == 0, p.tsn == seq, p.priority == prio), "a ZDO command")
    E.check(p.dst.addr_mode == (t.AddrMode.IEEE if ieee else t.AddrMode.NWK), "the address asked for")
    E.check(p.data.serialize() == le(E, seq, 1) + body, "the sequence number and the arguments")
    E.check(task.done() == is_reply, "requests wait for their reply")
    task.cancel()
    loop.drain()
    E.check(E.raises(AttributeError, lambda: dev.zdo.no_such_command), "unknown commands are refused")
    E.reach("zdo")


def binding(E, what):
    loop, app, dev = make(E, endpoints=())
    num = E.int("endpoint", 1, 254)
    ep = dev.add_endpoint(num)
    cid = E.pick("cluster", [0x0006, 0x0500, 0x0B99, 0xFC01]) if E.bool("some") else E.int("cluster", 0xFE10, 0xFEFF)
    raw, mine = E.bytes("ieee", 8), E.bytes("own", 8)
    server = E.bool("server")
    cl = ep.add_input_cluster(cid) if server else ep.add_output_cluster(cid)
    dev._ieee = t.EUI64.deserialize(raw)[0]
    app.state.node_info.ieee = t.EUI64.deserialize(mine)[0]
    start = E.bits("before", 8)
    dev._send_sequence = start
    via = E.bool("via_zdo")
    bind = what == "bind"
    if via:
        coro = dev.zdo.bind(cl) if bind else dev.zdo.unbind(cl)
    else:
        coro = cl.bind() if bind else cl.unbind()
    task = loop.spawn(coro)
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    E.check(p.cluster_id == (0x0021 if bind else 0x0022), "the request")
    want = le(E, (start + 1) % 256, 1) + raw + le(E, num, 1) + le(E, cid, 2) + b"\x03" + mine + b"\x01"
    E.check(p.data.serialize() == want, "the device's endpoint and cluster to the coordinator's endpoint")
    tsn = p.tsn
    status = E.bits("status", 8)
    app.packet_received(world.packet(dev, le(E, tsn, 1) + le(E, status, 1), cluster=0x8021 if bind else 0x8022, src_ep=0, dst_ep=0, profile=0))
    loop.drain()
    E.check(task.done() and task.result()[0] == status, "the status is returned")
    E.reach("bind")


def leave(E):
    loop, app, dev = make(E)
    raw = E.bytes("ieee", 8)
    dev._ieee = t.EUI64.deserialize(raw)[0]
    children, rejoin = E.bool("children"), E.bool("rejoin")
    start = E.bits("before", 8)
    dev._send_sequence = start
    if E.bool("default"):
        children, rejoin = True, False
        task = loop.spawn(dev.zdo.leave())
    else:
        task = loop.spawn(dev.zdo.leave(remove_children=children, rejoin=rejoin))
    p = app.sent[0]
    E.check(len(app.sent) == 1 and p.cluster_id == 0x0034, "a leave request")
    E.check(p.data.serialize() == le(E, (start + 1) % 256, 1) + raw + bytes([(0x40 if children else 0) | (0x80 if rejoin else 0)]), "who leaves and how")
    task.cancel()
    loop.drain()
    E.reach("leave")


def zdo_broadcast(E, i):
    loop, app, dev = make(E)
    start = E.bits("before", 8)
    app._send_sequence = start
    radius = E.bits("radius", 8)
    if i < 2:
        dur, tc = E.bits("duration", 8), E.bits("tc", 8)
        body, cid = le(E, dur, 1) + le(E, tc, 1), 0x0036
        addr = E.pick("to", [0xFFFF, 0xFFFD, 0xFFFC])
        if i == 0:
            coro = zigpy.zdo.broadcast(app, zdot.ZDOCmd.Mgmt_Permit_Joining_req, 0, radius, dur, tc, broadcast_address=t.BroadcastAddress(addr))
        else:
            kw = {"PermitDuration": dur, "TC_Significant": tc}
            if E.bool("swapped"):
                kw = dict(reversed(list(kw.items())))
            coro = zigpy.zdo.broadcast(app, zdot.ZDOCmd.Mgmt_Permit_Joining_req, 0, radius, broadcast_address=t.BroadcastAddress(addr), **kw)
    else:
        nwk, kind, idx = E.bits("nwk", 16), E.int("kind", 0, 1), E.bits("index", 8)
        body, cid, addr = le(E, nwk, 2) + le(E, kind, 1) + le(E, idx, 1), 0x0001, 0xFFFD
        kw = {"NWKAddrOfInterest": nwk, "RequestType": kind, "StartIndex": idx}
        order = E.pick("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
        kw = {list(kw)[j]: list(kw.values())[j] for j in order}
        coro = zigpy.zdo.broadcast(app, zdot.ZDOCmd.IEEE_addr_req, 0, radius, **kw)
    loop.run(coro)
    E.check(len(app.sent) == 1, "one packet")
    p = app.sent[0]
    seq = (start + 1) % 256
    E.check(E.all(p.dst.addr_mode == t.AddrMode.Broadcast, p.dst.address == addr, p.profile_id == 0, p.cluster_id == cid, p.src_ep == 0, p.dst_ep == 0,
                  p.tsn == seq, p.radius == radius), "a ZDO broadcast")
    E.check(p.data.serialize() == le(E, seq, 1) + body, "the sequence number and the arguments in their order")
    E.reach("zdo_broadcast")


def units(tier):
    for kind in ("router", "end"):
        yield f"unicast-{kind}", unicast, dict(kind=kind, described=True)
    yield "unicast-unknown", unicast, dict(kind="router", described=False)
    for r in (False, True):
        yield f"endpoint-{r}", endpoint, dict(reply=r)
        yield f"group-{r}", group, dict(manufacturer=r)
    for i in range(len(COMMANDS)):
        for c in (False, True):
            yield f"command-{i}-{c}", command, dict(i=i, client_side=c)
    yield "sequences", sequences, {}
    yield "group-command", group_command, {}
    for k in ("mrequest", "broadcast"):
        yield f"multicast-{k}", multicast, dict(kind=k)
    for i in range(len(ZDO)):
        yield f"zdo-{i}", zdo, dict(i=i)
    for w in ("bind", "unbind"):
        yield w, binding, dict(what=w)
    yield "leave", leave, {}
    for i in range(3):
        yield f"zdo-broadcast-{i}", zdo_broadcast, dict(i=i)
