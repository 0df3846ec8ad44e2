"""Whatever bytes arrive, receiving a packet never fails and later packets are still handled."""

import zigpy.types as t
import zigpy.zcl
import zigpy.zdo.types as zdot
from props import gen, world
from props.common import chunks
from zigpy.zcl import foundation as f

BOUNDS = ("arbitrary source and destination endpoints 0..3 and none; arbitrary cluster numbers or any of the device's clusters; frames of 0..4 arbitrary "
          "bytes; every ZDO cluster with 0..14 (thorough 24) arbitrary bytes; every general command with up to 4 (6) arbitrary bytes of payload, every "
          "attribute type reported or read back as every ZCL data type with arbitrary values; every OTA, alarm and time cluster command cut anywhere; "
          "with the coordinator known or not yet known, and the sender initialized, joining or unknown")
OUTSIDE = "longer frames; handlers that quirks add"
ASSUMPTIONS = ["listeners and quirk handlers are the library's own"]
REACH = ["header", "zdo", "general", "report", "read", "cluster", "still_works"]

OK = world.zcl(0x01, 0x77, 0x02)


def make(state="init", coord=True):
    app = world.make_app()
    if coord:
        world.add_device(app, ieee=world.NCP, nwk=0, endpoints=(1, 2))
    dev = world.add_device(app, ins=(0x0000, 0x0006, 0x000A, 0x0500, 0x0502, 0xFC57), outs=(0x0019, 0x0006), init=state == "init")
    if state == "gone":
        del app.devices[dev.ieee]
    return app, dev


def deliver(E, loop, app, dev, what, state="init", **kw):
    try:
        app.packet_received(world.packet(dev, **kw))
    except Exception as e:  # noqa: BLE001
        E.fail(f"{what}: receiving the packet fails with {type(e).__name__}")
    loop.drain()
    if state == "init" and dev.nwk == 0x1234 and app.get_device(nwk=dev.nwk) is dev:
        rec = world.Rec("cluster_command")
        dev.endpoints[1].in_clusters[0x0006].add_listener(rec)
        app.packet_received(world.packet(dev, OK, profile=0xABCD))
        E.check(rec.count("cluster_command") == 1, f"{what}: a later packet is not handled")
        E.reach("still_works")


def header(E, state, coord, src):
    loop = E.loop()
    app, dev = make(state, coord)
    dst = E.pick("dst", [0, 1, 3, None])
    cluster = E.pick("cluster", [0x0006, 0x0019, 0x000A, 0x0500, 0x0013, 0x8001, 0xFC57]) if E.bool("known") else t.ClusterId(E.bits("cid", 16))
    n = E.choice("n", 5)
    deliver(E, loop, app, dev, "short frame", state, data=E.bytes("data", n), src_ep=src, dst_ep=dst, cluster=cluster)
    E.reach("header")


def zdo(E, lo, hi, state, coord):
    loop = E.loop()
    app, dev = make(state, coord)
    cluster = E.pick("cluster", sorted(zdot.CLUSTERS)[lo:hi])
    n = E.choice("n", 15 if E.tier == "quick" else 25)
    data = E.bytes("data", n)
    # a count byte is kept small, everything it counts is cut off by the end of the data anyway
    deliver(E, loop, app, dev, f"ZDO {cluster!r}", state, data=data, src_ep=0, dst_ep=E.pick("dst", [0, 1]), cluster=cluster, profile=0)
    E.reach("zdo")


def general(E, cmd, state):
    loop = E.loop()
    app, dev = make(state)
    n = E.choice("n", 5 if E.tier == "quick" else 7)
    fc = E.pick("fc", [0x00, 0x08, 0x18, 0x10])
    deliver(E, loop, app, dev, f"general command {cmd:#x}", state, data=world.zcl(fc, E.bits("tsn", 8), cmd, E.bytes("data", n)))
    E.reach("general")


#: one attribute type per way of converting a value
def kinds():
    seen = {}
    for cid, cls in sorted(zigpy.zcl.Cluster._registry.items()):
        for a in cls.attributes.values():
            ty = a.type
            key = next((k for k in ty.__mro__ if k.__module__.startswith("zigpy.types") and "<locals>" not in k.__qualname__), ty)
            if key.__module__ == "zigpy.types.basic" and issubclass(key, int):
                key = (issubclass(key, t.enum8), getattr(key, "_bits", 0) > 8, getattr(key, "min_value", 0) < 0, "flag" if hasattr(key, "_member_map_") else "int", key.__mro__[-3:])
            seen.setdefault(key, (f"{cls.__name__}.{a.name}", ty))
    return [seen[k] for k in seen]


KINDS = kinds()


TYPES = [i for i in f.DataTypeId if i not in (f.DataTypeId.unk,)]


def simple_types():
    out = []
    for i in TYPES:
        try:
            info = f.DataType.from_type_id(i)
        except KeyError:
            continue
        if i in (f.DataTypeId.array, f.DataTypeId.struct, f.DataTypeId.set, f.DataTypeId.bag,
                 f.DataTypeId.semi, f.DataTypeId.single, f.DataTypeId.double, f.DataTypeId.octstr, f.DataTypeId.octstr16):
            continue
        out.append((i, info.python_type))
    return out


SPECIAL = [
    ("array", f.DataTypeId.array, b"\x20\x01\x00\x05"),
    ("empty array", f.DataTypeId.array, b"\x20\x00\x00"),
    ("struct", f.DataTypeId.struct, b"\x01\x00\x20\x05"),
    ("bag", f.DataTypeId.bag, b"\x20\x01\x00\x05"),
    ("set", f.DataTypeId.set, b"\x20\x01\x00\x05"),
    ("missing string", f.DataTypeId.string, b"\xff"),
    ("number in octets", f.DataTypeId.octstr, b"\x02\x31\x32"),
    ("octets", f.DataTypeId.octstr, b"\x02\xff\x00"),
    ("no octets", f.DataTypeId.octstr, b"\x00"),
    ("long octets", f.DataTypeId.octstr16, b"\x02\x00a\x00"),
    ("one and a half", f.DataTypeId.single, b"\x00\x00\xc0\x3f"),
    ("minus one", f.DataTypeId.single, b"\x00\x00\x80\xbf"),
    ("huge", f.DataTypeId.double, b"\xff\xff\xff\xff\xff\xff\xef\x7f"),
    ("infinity", f.DataTypeId.single, b"\x00\x00\x80\x7f"),
    ("nan", f.DataTypeId.double, b"\x00\x00\x00\x00\x00\x00\xf8\x7f"),
    ("infinity", f.DataTypeId.double, b"\x00\x00\x00\x00\x00\x00\xf0\xff"),
    ("half", f.DataTypeId.semi, b"\x00\x7c"),
]


def record(E, ids):
    if E.bool("special"):
        _, tid, wire = E.pick("sp", SPECIAL)
        return bytes([tid]) + wire
    tid, ty = E.pick("wiretype", ids)
    return bytes([tid]) + gen.value(E, ty, (0, 2)).serialize()


def with_attr(ty, name):
    class Probe(zigpy.zcl.Cluster):
        _skip_registry = True
        cluster_id = 0xFC57
        attributes = {0x0003: ("probe", ty)}
    return Probe


def report(E, lo, hi, wire):
    loop = E.loop()
    app, dev = make()
    name, ty = E.pick("attrtype", KINDS[lo:hi])
    cluster = with_attr(ty, name)(dev.endpoints[1], is_server=True)
    dev.endpoints[1].add_input_cluster(0xFC57, cluster)
    rec = record(E, wire)
    deliver(E, loop, app, dev, f"report for an attribute like {name}", data=world.zcl(0x18 if E.bool("noreply") else 0x08, 1, 0x0A, b"\x03\x00" + rec), cluster=0xFC57)
    E.check(3 in cluster._attr_cache, "the reported value is dropped")
    E.reach("report")


def read(E, lo, hi, wire):
    """A readout whose value has an unexpected type still completes."""
    loop = E.loop()
    app, dev = make()
    name, ty = E.pick("attrtype", KINDS[lo:hi])
    cluster = with_attr(ty, name)(dev.endpoints[1], is_server=True)
    dev.endpoints[1].add_input_cluster(0xFC57, cluster)
    task = loop.spawn(cluster.read_attributes([3]))
    tsn = app.sent[0].tsn
    rec = record(E, wire)
    app.packet_received(world.packet(dev, world.zcl(0x18, tsn, 0x01, b"\x03\x00\x00" + rec), cluster=0xFC57))
    loop.drain()
    E.check(task.done(), "the readout does not complete")
    E.check(task.exception() is None, f"a readout of an attribute like {name} fails because of the value's type")
    E.check(3 in task.result()[0], "the value read is dropped")
    E.reach("read")


CLUSTER_CMDS = [(0x0019, 0x01), (0x0019, 0x03), (0x0019, 0x06), (0x0500, 0x00), (0x0500, 0x01), (0x000A, 0x00), (0x0006, 0x40)]


def cluster(E, cid, cmd):
    loop = E.loop()
    app, dev = make()
    n = E.choice("n", 12)
    fc = E.pick("fc", [0x01, 0x09, 0x11, 0x19])
    deliver(E, loop, app, dev, f"cluster command {cid:#x}/{cmd:#x}", data=world.zcl(fc, E.bits("tsn", 8), cmd, E.bytes("data", n)), cluster=cid)
    E.reach("cluster")


def units(tier):
    out = []
    for state in ("init", "new", "gone"):
        for coord in (True, False):
            for src in (0, 1, 3, None):
                out.append((f"header/{state}/{coord}/{src}", header, {"state": state, "coord": coord, "src": src}))
            for i in range(0, len(zdot.CLUSTERS), 6):
                if state == "init" or tier != "quick" or not coord:
                    out.append((f"zdo/{state}/{coord}/{i}", zdo, {"lo": i, "hi": i + 6, "state": state, "coord": coord}))
    for cmd in sorted(f.GENERAL_COMMANDS):
        out.append((f"general/{int(cmd):02x}", general, {"cmd": int(cmd), "state": "init"}))
    ts = simple_types()
    n = len(KINDS)
    for i in range(0, n, 4):
        for j, wire in enumerate(chunks(ts, 20)):
            out.append((f"report/{i}/{j}", report, {"lo": i, "hi": i + 4, "wire": wire}))
            out.append((f"read/{i}/{j}", read, {"lo": i, "hi": i + 4, "wire": wire}))
    for cid, cmd in CLUSTER_CMDS:
        out.append((f"cluster/{cid:04x}/{cmd:02x}", cluster, {"cid": cid, "cmd": cmd}))
    return out
