"""Cluster commands: every command of every cluster is written and understood."""

import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.clusters  # noqa: F401
from zigpy.zcl import foundation as f
from zigpy.zcl.clusters import hvac
from zigpy.zcl.clusters import security as sec
from props import gen, world
from props.common import chunks

BOUNDS = ("every command of every registered cluster in both directions and every general command; all field values, "
          "list and string fields of 0 or 2 elements, optional fields present or absent from some point on; truncation at every byte; "
          "every warning, squawk and system type octet, with any two or three fields set to any listed value")
OUTSIDE = "longer lists and strings in commands (their types are covered by T03)"
ASSUMPTIONS = ["the registered cluster definitions are the protocol's; their identifiers are not compared with the standard"]
REACH = ["roundtrip", "truncated", "unknown", "kwargs", "warning", "stages"]


def commands():
    """(label, cluster class, is_client_command, definition)"""
    out = []
    for cid, cls in sorted(zigpy.zcl.Cluster._registry.items()):
        for client, defs in ((False, cls.server_commands), (True, cls.client_commands)):
            for k, c in sorted(defs.items()):
                out.append((f"{cls.__name__}.{c.name}{'<' if client else '>'}", cls, client, k, c))
    return out


def cluster_of(cls):
    app = world.make_app()
    dev = world.add_device(app, ins=(), outs=())
    return cls(dev.endpoints[1], is_server=True)


def frame(cls, client, cid, tsn, manufacturer, general=False):
    fc = (0 if general else 1) | (8 if client else 0) | (0 if manufacturer is None else 4)
    return world.zcl(fc, tsn, cid, b"", manufacturer)


GENERAL = sorted(f.GENERAL_COMMANDS)


def one(E, lo, hi):
    items = commands()[lo:hi]
    label, cls, client, cid, cdef = E.pick("command", items)
    cluster = cluster_of(cls)
    body(E, label, cluster, cls, client, cid, cdef, False)


def general(E, cmd):
    cdef = f.GENERAL_COMMANDS[cmd]
    cls = zigpy.zcl.clusters.general.OnOff
    body(E, cdef.name, cluster_of(cls), cls, cdef.direction == f.Direction.Server_to_Client, int(cmd), cdef, True)


def body(E, label, cluster, cls, client, cid, cdef, general):
    sizes = (0, 2) if E.tier == "quick" else (0, 3)
    x = gen.struct(E, cdef.schema, sizes)
    payload = x.serialize()
    E.check(payload == gen.wire(E, x), f"{label}: the payload is not the fields in order")
    tsn = E.bits("tsn", 8)
    m = E.bits("m", 16) if E.bool("manuf") else None
    head = frame(cls, client, cid, tsn, m, general)
    hdr, y = cluster.deserialize(head + payload)
    E.check(E.all(isinstance(y, cdef.schema), gen.same(E, x, y)), f"{label}: does not read back")
    E.check(E.all(hdr.tsn == tsn, hdr.command_id == cid, hdr.direction == cdef.direction,
                  hdr.manufacturer == m if m is not None else hdr.manufacturer is None), f"{label}: header")
    E.check(E.all(len(y) == len(cdef.schema.fields), *[y[i] is getattr(y, fl.name) for i, fl in enumerate(cdef.schema.fields)]), f"{label}: positional access")
    kw = {fl.name: getattr(x, fl.name) for fl in cdef.schema.fields}
    E.check(cdef.schema(**kw).serialize() == payload, f"{label}: built by name")
    E.check(cdef.schema(*kw.values()).serialize() == payload, f"{label}: built by position")
    E.reach("kwargs")
    E.reach("roundtrip")


def truncated(E, lo, hi):
    """Cutting a command short is refused, or drops whole optional or repeated trailing parts."""
    items = commands()[lo:hi]
    label, cls, client, cid, cdef = E.pick("command", items)
    cluster = cluster_of(cls)
    x = gen.struct(E, cdef.schema, (1, 1))
    payload = x.serialize()
    if not len(payload):
        return
    k = E.choice("k", len(payload))
    try:
        hdr, y = cluster.deserialize(frame(cls, client, cid, 1, None) + payload[:k])
    except ValueError:
        E.reach("truncated")
        return
    E.check(isinstance(y, cdef.schema), f"{label}: decoded as something else")
    last = None
    for fl in cdef.schema.fields:
        v = getattr(y, fl.name)
        if v is None:
            E.check(E.any(fl.optional, fl.requires is not None), f"{label}: a required field went missing")
        else:
            last = fl
    E.check(y.serialize() == payload[:k], f"{label}: a truncated command reads as something it does not say")
    E.reach("truncated")


def unknown(E):
    """Commands that are not defined are passed on raw, with their header."""
    name, cls = E.pick("cluster", [(c.__name__, c) for _, c in sorted(zigpy.zcl.Cluster._registry.items())])
    cluster = cluster_of(cls)
    cid, tsn = E.bits("cid", 8), E.bits("tsn", 8)
    client = E.bool("client")
    general = E.bool("general")
    known = f.GENERAL_COMMANDS if general else (cls.client_commands if client else cls.server_commands)
    for k in known:
        E.assume(cid != int(k))
    data = E.bytes("data", 2)
    hdr, rest = cluster.deserialize(frame(cls, client, cid, tsn, None, general) + data)
    E.check(E.all(rest == data, hdr.command_id == cid, hdr.tsn == tsn), f"{name}: undefined commands are not passed on as they are")
    E.reach("unknown")


# the fields of one octet: first bit, bits read, bits it takes, values one may set
SIREN = {"mode": (4, 4, 4, range(7)), "strobe": (2, 1, 2, range(2)), "level": (0, 2, 2, range(4))}
SQUAWK = {"mode": (4, 4, 4, range(2)), "strobe": (3, 1, 1, range(2)), "level": (0, 2, 2, range(4))}


def warning(E, cls, fields):
    """A warning or a squawk is one octet whose fields are set and read apart."""
    v = E.bits("v", 8)
    x, rest = cls.deserialize(bytes([v]) + b"\x99")
    E.check(rest == b"\x99", "takes one octet")

    def says(v):
        E.check(E.all(x == v, x.serialize() == bytes([v])), "the octet")
        for n, (at, bits, _, _) in fields.items():
            E.check(getattr(x, n) == (v >> at) & ((1 << bits) - 1), f"{n} is read from elsewhere")

    says(v)
    for n in E.pick("order", [("mode", "strobe"), ("strobe", "level"), ("level", "mode"), ("mode", "level", "strobe")]):
        at, _, bits, values = fields[n]
        w = E.pick(n, list(values))
        setattr(x, n, type(getattr(x, n))(w))
        v = (v & ~(((1 << bits) - 1) << at) & 0xFF) | (w << at)
        says(v)
    E.check(cls(v) == x, "built from the octet it is the same")
    E.reach("warning")


def stages(E):
    """What the type of a heating and cooling system says of its parts."""
    v = E.bits("v", 8)
    x = hvac.SystemType(v)
    E.check(E.all(x.cooling_system_stage == (v & 3), isinstance(x.cooling_system_stage, hvac.CoolingSystemStage)), "cooling stage")
    E.check(E.all(x.heating_system_stage == ((v >> 2) & 3), isinstance(x.heating_system_stage, hvac.HeatingSystemStage)), "heating stage")
    E.check(E.all(x.heating_system_type == ((v >> 4) & 1), isinstance(x.heating_system_type, hvac.HeatingSystemType)), "heating type")
    E.check(E.all(x.heating_fuel_source == ((v >> 5) & 1), isinstance(x.heating_fuel_source, hvac.HeatingFuelSource)), "fuel")
    E.reach("stages")


def units(tier):
    n = len(commands())
    step = 12
    out = [(f"one/{i}", one, {"lo": i, "hi": i + step}) for i in range(0, n, step)]
    out += [(f"general/{f.GeneralCommand(c).name}", general, {"cmd": int(c)}) for c in GENERAL]
    out += [(f"truncated/{i}", truncated, {"lo": i, "hi": i + step}) for i in range(0, n, step)]
    out.append(("unknown", unknown, {}))
    out += [("warning", warning, {"cls": sec.WarningType, "fields": SIREN}), ("squawk", warning, {"cls": sec.Squawk, "fields": SQUAWK}), ("stages", stages, {})]
    return out
