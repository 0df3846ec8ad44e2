"""Device object (ZDO) commands: written, read, and dispatched as the standard lays them out."""

import zigpy.types as t
import zigpy.zdo.types as zdot
from zigpy.types.basic import FixedIntType
from props import gen, world

BOUNDS = "every device object command; all field values; lists of 0 or 2 entries (0 to 3 thorough); truncation at every byte; trailing byte"
OUTSIDE = "longer lists; the size prefix of simple descriptors is not compared with the descriptor's length when reading"
ASSUMPTIONS = ["the field table in the harness (names and octets of the commands zigpy uses) is the ZigBee specification's"]
REACH = ["roundtrip", "truncated", "unknown", "layout", "descriptor", "sent", "handled", "tables", "helpers"]

U8, U16, EUI, L8, L16, L64 = 1, 2, 8, "l1", "l2", "l8"
LAYOUT = {
    0x0000: [EUI, U8, U8], 0x0001: [U16, U8, U8], 0x0002: [U16], 0x0003: [U16], 0x0004: [U16, U8], 0x0005: [U16],
    0x0006: [U16, U16, L16, L16], 0x0013: [U16, EUI, U8], 0x001F: [L64], 0x0031: [U8], 0x0032: [U8], 0x0033: [U8],
    0x0034: [EUI, U8], 0x0036: [U8, U8], 0x0021: [EUI, U8, U16, "addr"], 0x0022: [EUI, U8, U16, "addr"],
    0x8000: [U8, EUI, U16, U8, U8, "L2"], 0x8001: [U8, EUI, U16, U8, U8, "L2"], 0x8002: [U8, U16, 13], 0x8003: [U8, U16, 2],
    0x8005: [U8, U16, L8], 0x8006: [U8, U16, L8], 0x8021: [U8], 0x8022: [U8], 0x8034: [U8], 0x8036: [U8],
    0x8038: [U8, 4, U16, U16, L8],
}
FIRST = {0x0000: "IEEEAddr", 0x0001: "NWKAddrOfInterest", 0x0002: "NWKAddrOfInterest", 0x0004: "NWKAddrOfInterest", 0x0013: "NWKAddr",
         0x0021: "SrcAddress", 0x0034: "DeviceAddress", 0x0036: "PermitDuration", 0x8000: "Status", 0x8005: "Status", 0x8038: "Status"}


def le(v, n):
    return bytes([(v >> (8 * i)) & 0xFF for i in range(n)])


def ref(v):
    """Reference wire form, written without the library's serializers."""
    if v is None:
        return b""
    if isinstance(v, zdot.MultiAddress):
        out = bytes([v.addrmode])
        return out + (le(v.nwk, 2) if v.addrmode == 1 else ref(v.ieee) + bytes([v.endpoint]))
    if isinstance(v, t.Struct) and not isinstance(v, FixedIntType):
        body = b""
        acc, off = 0, 0
        for fl in v.fields:
            if fl.requires is not None and not fl.requires(v):
                continue
            x = getattr(v, fl.name)
            if x is None:
                continue
            if isinstance(x, FixedIntType) and not isinstance(x, t.Struct) and (type(x)._bits % 8 or off):
                acc, off = acc | ((x + 0) << off), off + type(x)._bits
                if off % 8 == 0:
                    body = body + le(acc, off // 8)
                    acc, off = 0, 0
                continue
            body = body + ref(x)
        if isinstance(v, zdot.SizePrefixedSimpleDescriptor):
            return bytes([len(body)]) + body
        return body
    if isinstance(v, FixedIntType) and not isinstance(v, t.Struct):
        return le(v + 0, type(v)._bits // 8)
    if isinstance(v, t.EUI64) or isinstance(v, t.FixedList):
        return b"".join([ref(x) for x in v])
    if isinstance(v, t.LVList):
        return bytes([len(v)]) + b"".join([ref(x) for x in v])
    if isinstance(v, list):
        return b"".join([ref(x) for x in v])
    return v.serialize()


CMDS = sorted(zdot.CLUSTERS)


def zdo():
    app = world.make_app()
    return app, world.add_device(app)


def layout(E):
    """The fields of the commands in use have the standard's widths, in order."""
    c = E.pick("command", sorted(LAYOUT))
    names, types = zdot.CLUSTERS[c]
    E.check(len(names) == len(types) == len(LAYOUT[c]), f"0x{c:04x}: number of fields")
    if c in FIRST:
        E.check(names[0] == FIRST[c], f"0x{c:04x}: first field")
    for k, w in enumerate(LAYOUT[c]):
        ty = types[k]
        if isinstance(w, int):
            v, rest = ty.deserialize(E.bytes("data", w) + b"\x00")
            E.check(E.all(v is not None, rest == b"\x00"), f"0x{c:04x}: field {k} takes {w} octets")
        elif w == "addr":
            E.check(issubclass(ty, zdot.MultiAddress), f"0x{c:04x}: field {k}")
        else:
            n = int(w[1:])
            data = E.bytes("data", 2 * n)
            head = b"\x02" if w[0] == "l" else b""
            v, rest = ty.deserialize(head + data)
            E.check(E.all(len(v) == 2, rest == b"", v.serialize() == head + data), f"0x{c:04x}: list {k}")
    E.reach("layout")


def build(E, cmd, sizes):
    names, types = zdot.CLUSTERS[cmd]
    vals = []
    for name, ty in zip(names, types):
        if getattr(ty, "optional", False) and E.choice("skip_" + name, 2):
            break
        base = ty.__mro__[1] if getattr(ty, "optional", False) else ty
        vals.append(gen.value(E, base, sizes, name))
    return vals


def roundtrip(E, lo, hi):
    cmd = E.pick("command", CMDS[lo:hi])
    app, dev = zdo()
    sizes = (0, 2) if E.tier == "quick" else (0, 3)
    vals = build(E, cmd, sizes)
    names, types = zdot.CLUSTERS[cmd]
    payload = b"".join([ref(v) for v in vals])
    E.check(t.serialize(vals, types) == payload, f"{cmd!r}: fields in order")
    tsn = E.bits("tsn", 8)
    hdr, args = dev.zdo.deserialize(cmd, bytes([tsn]) + payload)
    E.check(E.all(hdr.tsn == tsn, hdr.command_id == int(cmd), hdr.is_reply == (int(cmd) >= 0x8000), hdr.serialize() == bytes([tsn])), f"{cmd!r}: header")
    E.check(len(args) == len(types), f"{cmd!r}: number of fields")
    for k in range(len(types)):
        if k < len(vals):
            E.check(gen.same(E, vals[k], args[k]), f"{cmd!r}: {names[k]} does not read back")
        else:
            E.check(args[k] is None or (isinstance(args[k], list) and len(args[k]) == 0), f"{cmd!r}: {names[k]} comes out of nowhere")
    E.reach("roundtrip")


def truncated(E, lo, hi):
    """Cut short inside a required field: refused. Inside an optional one: that field is missing."""
    cmd = E.pick("command", CMDS[lo:hi])
    app, dev = zdo()
    names, types = zdot.CLUSTERS[cmd]
    vals = [gen.value(E, ty.__mro__[1] if getattr(ty, "optional", False) else ty, (1, 1), n) for n, ty in zip(names, types)]
    parts = [ref(v) for v in vals]
    total = sum([len(p) for p in parts])
    k = E.choice("k", total)
    payload = b"".join(parts)[:k]
    # which field does the cut fall into?
    at, end = 0, 0
    for i in range(len(parts)):
        at = i
        end += len(parts[i])
        if k < end:
            break
    required = not getattr(types[at], "optional", False)
    greedy = (issubclass(types[at], t.List) and not issubclass(types[at], t.LVList)) or issubclass(types[at], zdot.SizePrefixedSimpleDescriptor)
    try:
        hdr, args = dev.zdo.deserialize(cmd, b"\x01" + payload)
    except ValueError:
        E.check(required, f"{cmd!r}: refused although only an optional field is missing")
        E.reach("truncated")
        return
    if required:
        E.check(greedy and k == end - len(parts[at]), f"{cmd!r}: accepted without a required field")
        E.reach("truncated")
        return
    for i in range(at):
        E.check(gen.same(E, vals[i], args[i]), f"{cmd!r}: {names[i]} changed by what is missing after it")
    for i in range(at, len(types)):
        E.check(args[i] is None or (isinstance(args[i], list) and not isinstance(args[i], t.FixedList) and len(args[i]) == 0), f"{cmd!r}: {names[i]} made up")
    E.reach("truncated")


def unknown(E):
    app, dev = zdo()
    cmd = E.bits("cmd", 16)
    for c in CMDS:
        E.assume(cmd != int(c))
    E.check(E.raises(ValueError, dev.zdo.deserialize, cmd, E.bytes("data", 3)), "a command without a definition is decoded")
    hdr, rest = zdot.ZDOHeader.deserialize(cmd, E.bytes("data2", 2))
    E.check(E.all(hdr.command_id == cmd, hdr.is_reply == (cmd >= 0x8000), len(rest) == 1), "header of an unknown command")
    E.reach("unknown")


def descriptor(E):
    """What a node descriptor's bytes say about the node."""
    data = E.bytes("data", 13)
    d, rest = zdot.NodeDescriptor.deserialize(data)
    lt = data[0] & 7
    E.check(E.all(rest == b"", d.logical_type == lt, d.complex_descriptor_available == ((data[0] >> 3) & 1), d.user_descriptor_available == ((data[0] >> 4) & 1),
                  d.frequency_band == (data[1] >> 3), d.mac_capability_flags == data[2], d.manufacturer_code == (data[3] | data[4] << 8),
                  d.maximum_buffer_size == data[5], d.maximum_incoming_transfer_size == (data[6] | data[7] << 8), d.server_mask == (data[8] | data[9] << 8),
                  d.maximum_outgoing_transfer_size == (data[10] | data[11] << 8), d.descriptor_capability_field == data[12], d.serialize() == data), "node descriptor fields")
    E.check(d.is_valid, "a complete descriptor is invalid")
    E.check(E.all(d.is_coordinator == (lt == 0), d.is_router == (lt == 1), d.is_end_device == (lt == 2)), "kind of node")
    m = data[2]
    E.check(E.all(d.is_alternate_pan_coordinator == ((m & 1) != 0), d.is_full_function_device == ((m & 2) != 0), d.is_mains_powered == ((m & 4) != 0),
                  d.is_receiver_on_when_idle == ((m & 8) != 0), d.is_security_capable == ((m & 0x40) != 0), d.allocate_address == ((m & 0x80) != 0)), "capabilities")
    # the same, said the way it was before the first two bytes had fields
    args = (data[0], data[1], data[2], data[3] | data[4] << 8, data[5], data[6] | data[7] << 8, data[8] | data[9] << 8, data[10] | data[11] << 8, data[12])
    names = ("byte1", "byte2", "mac_capability_flags", "manufacturer_code", "maximum_buffer_size", "maximum_incoming_transfer_size", "server_mask",
             "maximum_outgoing_transfer_size", "descriptor_capability_field")
    old = zdot.NodeDescriptor(*args) if E.bool("by_position") else zdot.NodeDescriptor(**dict(zip(names, args)))
    E.check(old.serialize() == data, "built from its bytes it is the same descriptor")
    E.reach("descriptor")


def sent(E):
    """A command called by name goes out under its identifier with its fields in order."""
    app, dev = zdo()
    loop = E.loop()
    cmds = [c for c in CMDS if int(c) in LAYOUT]
    cmd = E.pick("command", cmds)
    vals = build(E, cmd, (0, 1))
    names, types = zdot.CLUSTERS[cmd]
    payload = b"".join([ref(v) for v in vals])
    if len(vals) < len(types):
        return
    app.fail = lambda p: RuntimeError("stop") if int(cmd) < 0x8000 else None
    try:
        loop.run(getattr(dev.zdo, cmd.name)(*vals))
    except RuntimeError:
        pass
    p = app.sent[0]
    E.check(E.all(len(app.sent) == 1, p.cluster_id == int(cmd), p.profile_id == 0, p.src_ep == 0, p.dst_ep == 0), "addressing")
    E.check(p.data.serialize() == bytes([p.tsn]) + payload, f"{cmd!r}: what is sent")
    E.reach("sent")


HANDLED = [c for c in CMDS if int(c) < 0x8000]


def handled(E):
    """Every request reaches the listeners under its name, with its fields."""
    app, dev = zdo()
    E.loop()
    cmd = E.pick("command", HANDLED)
    vals = build(E, cmd, (0, 1))
    payload = b"".join([ref(v) for v in vals])
    tsn = E.bits("tsn", 8)
    got = []

    class L:
        def __getattr__(self, name):
            if name != f"zdo_{cmd.name.lower()}":
                raise AttributeError(name)
            return lambda *a: got.append(a)

    dev.zdo.add_listener(L())
    hdr, args = dev.zdo.deserialize(cmd, bytes([tsn]) + payload)
    dev.zdo.handle_message(0, cmd, hdr, args, dst_addressing=t.AddrMode.NWK)
    E.check(len(got) == 1, f"{cmd!r}: listeners are told {len(got)} times")
    d, mode, h, a = got[0]
    E.check(E.all(d is dev, mode is t.AddrMode.NWK, h.tsn == tsn, h.command_id == int(cmd), len(a) == len(vals)), f"{cmd!r}: listener arguments")
    for k in range(len(vals)):
        E.check(gen.same(E, vals[k], a[k]), f"{cmd!r}: listener fields")
    E.reach("handled")


def tables(E):
    """What the bytes of table entries and addresses say."""
    kind = E.pick("kind", ["neighbor", "route", "address", "binding", "update", "power", "simple"])
    u16 = lambda d, i: d[i] | d[i + 1] << 8
    if kind == "neighbor":
        d = E.bytes("data", 22)
        v, rest = zdot.Neighbor.deserialize(d)
        want = [v.extended_pan_id.serialize() == d[0:8], v.ieee.serialize() == d[8:16], v.nwk == u16(d, 16), v.device_type == d[18] & 3,
                v.rx_on_when_idle == (d[18] >> 2) & 3, v.relationship == (d[18] >> 4) & 7, v.permit_joining == d[19] & 3, v.depth == d[20], v.lqi == d[21]]
    elif kind == "route":
        d = E.bytes("data", 5)
        v, rest = zdot.Route.deserialize(d)
        want = [v.DstNWK == u16(d, 0), v.RouteStatus == d[2] & 7, v.MemoryConstrained == (d[2] >> 3) & 1, v.ManyToOne == (d[2] >> 4) & 1,
                v.RouteRecordRequired == (d[2] >> 5) & 1, v.NextHop == u16(d, 3)]
    elif kind == "address":
        d = E.bytes("data", 10)
        if E.all(d[0] != 1, d[0] != 3):
            E.check(E.raises(ValueError, zdot.MultiAddress.deserialize, d), "an address of an unknown kind is accepted")
            bad = zdot.MultiAddress(addrmode=d[0], nwk=0, ieee=world.NCP, endpoint=1)
            E.check(E.raises(ValueError, bad.serialize), "an address of an unknown kind is written")
            return
        v, rest = zdot.MultiAddress.deserialize(d)
        if d[0] == 1:
            want = [v.nwk == u16(d, 1), v.ieee is None, v.endpoint is None]
            rest = b"" if rest == d[3:] else rest
        else:
            want = [v.nwk is None, v.ieee.serialize() == d[1:9], v.endpoint == d[9]]
    elif kind == "binding":
        d = E.bytes("head", 11) + b"\x03" + E.bytes("tail", 9)
        v, rest = zdot.Binding.deserialize(d)
        want = [v.SrcAddress.serialize() == d[0:8], v.SrcEndpoint == d[8], v.ClusterId == u16(d, 9), v.DstAddress.ieee.serialize() == d[12:20], v.DstAddress.endpoint == d[20]]
    elif kind == "update":
        d = E.bytes("data", 8)
        v, rest = zdot.NwkUpdate.deserialize(d)
        want = [v.ScanChannels == u16(d, 0) | u16(d, 2) << 16, v.ScanDuration == d[4]]
        if d[4] <= 5:
            want += [v.ScanCount == d[5], v.nwkUpdateId is None, v.nwkManagerAddr is None, rest == d[6:]]
        elif d[4] == 0xFE:
            want += [v.ScanCount is None, v.nwkUpdateId == d[5], v.nwkManagerAddr is None, rest == d[6:]]
        elif d[4] == 0xFF:
            want += [v.ScanCount is None, v.nwkUpdateId == d[5], v.nwkManagerAddr == u16(d, 6), rest == b""]
        else:
            want += [v.ScanCount is None, v.nwkUpdateId is None, v.nwkManagerAddr is None, rest == d[5:]]
        rest = b""
    elif kind == "power":
        d = E.bytes("data", 2)
        v, rest = zdot.PowerDescriptor.deserialize(d)
        want = [v.serialize() == d]
    else:
        d = E.bytes("head", 6) + b"\x01" + E.bytes("in", 2) + b"\x02" + E.bytes("out", 4)
        v, rest = zdot.SimpleDescriptor.deserialize(d)
        want = [v.endpoint == d[0], v.profile == u16(d, 1), v.device_type == u16(d, 3), v.device_version == d[5], len(v.input_clusters) == 1,
                v.input_clusters[0] == u16(d, 7), len(v.output_clusters) == 2, v.output_clusters[0] == u16(d, 10), v.output_clusters[1] == u16(d, 12)]
    E.check(E.all(rest == b"", *want), f"{kind}: fields")
    E.reach("tables")


def packets(E, app, call):
    """What goes out while `call` runs until it wants an answer."""
    app.fail = lambda p: RuntimeError("stop")
    try:
        E.loop().run(call())
    except RuntimeError:
        pass
    E.check(len(app.sent) == 1, "one packet is sent")
    p = app.sent[0]
    E.check(E.all(p.profile_id == 0, p.src_ep == 0, p.dst_ep == 0, p.data.serialize()[:1] == bytes([p.tsn])), "a device object packet")
    return p, p.data.serialize()[1:]


def helpers(E):
    """Leaving, permitting, binding: each asks for just what it was called for."""
    app, dev = zdo()
    kind = E.pick("kind", ["leave", "permit", "bind", "unbind", "reply", "broadcast"])
    ieee = dev.ieee.serialize()
    to_dev = lambda p: E.all(p.dst.address == dev.nwk, p.dst.addr_mode == t.AddrMode.NWK)
    if kind == "leave":
        children, rejoin = E.pick("children", [False, True]), E.pick("rejoin", [False, True])
        p, data = packets(E, app, lambda: dev.zdo.leave(children, rejoin))
        E.check(E.all(to_dev(p), p.cluster_id == 0x34, data == ieee + bytes([0x40 * children + 0x80 * rejoin])), "request to leave")
    elif kind == "permit":
        d, tc = E.bits("duration", 8), E.bits("tc", 8)
        p, data = packets(E, app, lambda: dev.zdo.permit(d, tc))
        E.check(E.all(to_dev(p), p.cluster_id == 0x36, data == bytes([d, tc])), "request to let devices join")
    elif kind in ("bind", "unbind"):
        cluster = dev.endpoints[1].in_clusters[6] if E.bool("input") else dev.endpoints[1].out_clusters[0x19]
        p, data = packets(E, app, getattr(cluster, kind))
        want = ieee + bytes([1]) + le(cluster.cluster_id, 2) + b"\x03" + app.state.node_info.ieee.serialize() + b"\x01"
        E.check(E.all(to_dev(p), p.cluster_id == (0x21 if kind == "bind" else 0x22), data == want), f"request to {kind}")
    elif kind == "reply":
        tsn = E.bits("tsn", 8)
        p, data = packets(E, app, lambda: dev.zdo.Mgmt_Permit_Joining_rsp(0, tsn=tsn))
        E.check(E.all(to_dev(p), p.cluster_id == 0x8036, p.tsn == tsn, data == b"\x00"), "an answer carries the request's number")
    else:
        d, tc = E.bits("duration", 8), E.bits("tc", 8)
        by_name = E.pick("by_name", [0, 1, 2])
        args, kw = [(d, tc), (d,), ()][by_name], [{}, {"TC_Significant": tc}, {"TC_Significant": tc, "PermitDuration": d}][by_name]
        where = E.pick("where", [t.BroadcastAddress.ALL_DEVICES, t.BroadcastAddress.ALL_ROUTERS_AND_COORDINATOR])
        grp, radius = E.bits("group", 16), E.bits("radius", 8)
        import zigpy.zdo
        p, data = packets(E, app, lambda: zigpy.zdo.broadcast(app, zdot.ZDOCmd.Mgmt_Permit_Joining_req, grp, radius, *args, broadcast_address=where, **kw))
        E.check(E.all(p.dst.addr_mode == t.AddrMode.Broadcast, p.dst.address == where, p.radius == radius, p.cluster_id == 0x36, data == bytes([d, tc])), "broadcast request")
    E.reach("helpers")


def units(tier):
    out = [("layout", layout, {}), ("unknown", unknown, {}), ("descriptor", descriptor, {}), ("sent", sent, {}), ("handled", handled, {}), ("tables", tables, {}), ("helpers", helpers, {})]
    step = 6
    for i in range(0, len(CMDS), step):
        out += [(f"roundtrip/{i}", roundtrip, {"lo": i, "hi": i + step}), (f"truncated/{i}", truncated, {"lo": i, "hi": i + step})]
    return out
