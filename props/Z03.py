"""Data type table, typed values and attribute records."""

import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.clusters  # noqa: F401
from zigpy.types.basic import FixedIntType
from zigpy.zcl import foundation as f
from props import gen

BOUNDS = ("every data type, every attribute of every registered cluster; all values; strings of up to 2 characters, "
          "collections of up to 2 elements (quick) or 3 (thorough)")
OUTSIDE = "longer strings and collections; collections nested in collections deeper than 2"
ASSUMPTIONS = ["the reference table in the harness (identifier, octets, analog or discrete) is the ZCL specification's table 2-10"]
REACH = ["typed", "collection", "record", "failed_record", "config", "receive", "unknown", "attribute", "wresp", "cresp", "nonvalue"]

# identifier -> (octets, analog/discrete), ZCL revision 8 table 2-10
TABLE = {0x00: (0, "N"), **{0x08 + i: (1 + i, "D") for i in range(8)}, 0x10: (1, "D"), **{0x18 + i: (1 + i, "D") for i in range(8)},
         **{0x20 + i: (1 + i, "A") for i in range(8)}, **{0x28 + i: (1 + i, "A") for i in range(8)}, 0x30: (1, "D"), 0x31: (2, "D"),
         0x38: (2, "A"), 0x39: (4, "A"), 0x3A: (8, "A"), 0x41: (None, "D"), 0x42: (None, "D"), 0x43: (None, "D"), 0x44: (None, "D"),
         0x48: (None, "D"), 0x4C: (None, "D"), 0x50: (None, "D"), 0x51: (None, "D"),
         0xE0: (4, "A"), 0xE1: (4, "A"), 0xE2: (4, "A"), 0xE8: (2, "D"), 0xE9: (2, "D"), 0xEA: (4, "D"), 0xF0: (8, "D"), 0xF1: (16, "D")}
SIMPLE = [i for i in TABLE if i not in (0x48, 0x4C, 0x50, 0x51)]
COLL = [0x48, 0x50, 0x51]
KIND = {"A": f.DataClass.Analog, "D": f.DataClass.Discrete, "N": f.DataClass.Null}


def le(v, n):
    return bytes([(v >> (8 * i)) & 0xFF for i in range(n)])


def table(E):
    i = E.pick("id", sorted(TABLE))
    d = f.DataType.from_type_id(i)
    size, kind = TABLE[i]
    E.check(d.type_id == i, "a type is found under the wrong identifier")
    E.check(d.type_class is KIND[kind], f"0x{i:02x}: analog or discrete")
    E.check(f.DataType.from_python_type(d.python_type) is d, f"0x{i:02x}: the type's own Python type belongs to another type")
    if size:
        data = E.bytes("data", size + 1)
        v, rest = d.python_type.deserialize(data)
        E.check(E.all(isinstance(v, d.python_type), rest == data[size:]), f"0x{i:02x}: takes {size} octets")
        if i not in (0x38, 0x39, 0x3A):
            E.check(v.serialize() == data[:size], f"0x{i:02x}: bytes")
        if 0x20 <= i < 0x30 or 0x18 <= i < 0x20 or i in (0x30, 0x31, 0xE2, 0xE8, 0xE9, 0xEA):
            u = sum([data[k] << (8 * k) for k in range(size)])
            if 0x28 <= i < 0x30:
                u = E.ite(data[size - 1] >= 128, u - (1 << (8 * size)), u)
            E.check(v == u, f"0x{i:02x}: value")
    E.reach("typed")


def nonvalue(E):
    i = E.pick("id", [*range(0x20, 0x28), *range(0x28, 0x30), 0x30, 0x31, 0x10, 0xE2, 0xE8, 0xE9, 0xEA])
    d = f.DataType.from_type_id(i)
    n = TABLE[i][0]
    ref = -(1 << (8 * n - 1)) if 0x28 <= i < 0x30 else (1 << (8 * n)) - 1
    E.check(E.all(d.non_value == ref, d.non_value.serialize() == le(ref & ((1 << (8 * n)) - 1), n)), f"0x{i:02x}: the reserved non-value")
    E.reach("nonvalue")


def attributes():
    out = []
    for _, cls in sorted(zigpy.zcl.Cluster._registry.items()):
        for k, a in sorted(cls.attributes.items()):
            out.append((f"{cls.__name__}.{a.name}", cls, k, a))
    return out


def attribute(E, lo, hi):
    """The type sent for an attribute has the attribute's width, sign and class."""
    label, cls, k, a = E.pick("attribute", attributes()[lo:hi])
    E.check(E.all(a.id == k, cls.attributes_by_name[a.name] is a), f"{label}: index")
    size, kind = TABLE[int(a.zcl_type)] if int(a.zcl_type) in TABLE else (None, None)
    if isinstance(a.type, type) and issubclass(a.type, FixedIntType):
        E.check(kind is not None, f"{label}: has no data type")
    if size is not None and isinstance(a.type, type) and issubclass(a.type, FixedIntType):
        E.check(a.type._bits == 8 * size, f"{label}: sent with a type of another width")
        d = f.DataType.from_type_id(a.zcl_type)
        if issubclass(d.python_type, FixedIntType) and not issubclass(a.type, t.Struct):
            E.check(a.type._signed == d.python_type._signed, f"{label}: sent with a type of another sign")
            v = a.type(E.int("v", a.type.min_value, a.type.max_value))
            w, rest = d.python_type.deserialize(v.serialize())
            E.check(E.all(w == v, rest == b"", a.type(w) == v), f"{label}: value read by its data type")
            sent = f.TypeValue(type=a.zcl_type, value=v).serialize()
            back, _ = f.TypeValue.deserialize(sent)
            E.check(a.type(back.value) == v, f"{label}: value sent and normalized")
    E.reach("attribute")


def typed(E, ids):
    i = E.pick("id", ids)
    d = f.DataType.from_type_id(i)
    v = gen.value(E, d.python_type, (0, 2))
    x = f.TypeValue(type=d.type_id, value=v)
    wire = x.serialize()
    E.check(wire == bytes([i]) + v.serialize(), f"0x{i:02x}: a typed value is its type and its value")
    rest = E.bytes("rest", 1)
    y, left = f.TypeValue.deserialize(wire + rest)
    E.check(E.all(y.type == i, type(y.value) is d.python_type, left == rest), f"0x{i:02x}: typed value")
    E.check(gen.same(E, y.value, v), f"0x{i:02x}: value")
    z = f.TypeValue(y)
    E.check(E.all(z.type == i, z.value is y.value), "copy")
    E.reach("typed")


def element(E, ids):
    i = E.pick("elem", ids)
    return i, f.DataType.from_type_id(i)


ELEMS = [0x20, 0x2A, 0x18, 0x42, 0x41, 0x39, 0xE1, 0xF0]


def collection(E, elem):
    """Arrays, sets and bags, on their own, inside typed values and inside read records."""
    c = E.pick("coll", COLL)
    d = f.DataType.from_type_id(elem)
    n = E.choice("n", 3 if E.tier == "quick" else 4)
    items = [gen.value(E, d.python_type, (0, 1)) for _ in range(n)]
    cls = f.DataType.from_type_id(c).python_type
    x = cls(type=d.type_id, value=t.LVList[d.python_type, t.uint16_t](items))
    inner = bytes([elem]) + le(n, 2)
    for it in items:
        inner = inner + it.serialize()
    E.check(x.serialize() == inner, "a collection is its element type, a 16-bit count and its elements")
    y, left = cls.deserialize(inner + b"\x55")
    E.check(E.all(isinstance(y, cls), y.type == elem, gen.same(E, y.value, x.value), left == b"\x55"), "collection read back")
    tv, left = f.TypeValue.deserialize(bytes([c]) + inner + b"\x55")
    E.check(E.all(tv.type == c, isinstance(tv.value, cls), tv.value.type == elem, gen.same(E, tv.value.value, x.value), left == b"\x55"), "collection as a typed value")
    E.check(tv.serialize() == bytes([c]) + inner, "collection as a typed value is written back")
    aid = E.bits("attrid", 16)
    wire = le(aid, 2) + b"\x00" + bytes([c]) + inner
    r, left = f.ReadAttributeRecord.deserialize(wire + b"\x55")
    E.check(E.all(r.attrid == aid, r.status == 0, isinstance(r.value, cls), gen.same(E, r.value.value, x.value), left == b"\x55"), "collection in a record")
    E.check(r.serialize() == wire, "collection in a record is written back")
    E.reach("collection")


def structure(E):
    n = E.choice("n", 3)
    members = [gen.typed_value(E, [f.DataTypeId(e) for e in (0x20, 0x2B, 0x42, 0x19)]) for _ in range(n)]
    wire = b"\x4c" + le(n, 2)
    for m in members:
        wire = wire + m.serialize()
    x = f.TypeValue(type=f.DataTypeId.struct, value=f.ZCLStructure(members))
    E.check(x.serialize() == wire, "a structure is a 16-bit count and its typed members")
    y, left = f.TypeValue.deserialize(wire + b"\x55")
    E.check(E.all(left == b"\x55", y.type == 0x4C, gen.same(E, list(y.value), members)), "structure read back")
    E.reach("collection")


def record(E, ids):
    aid, st = E.bits("attrid", 16), E.bits("status", 8)
    if E.bool("ok"):
        E.assume(st == 0)
        i = E.pick("id", ids)
        d = f.DataType.from_type_id(i)
        v = gen.value(E, d.python_type, (0, 1))
        r = f.ReadAttributeRecord(attrid=aid, status=f.Status.SUCCESS, value=f.TypeValue(type=d.type_id, value=v))
        wire = le(aid, 2) + b"\x00" + bytes([i]) + v.serialize()
        E.reach("record")
    else:
        E.assume(st != 0)
        v = None
        r = f.ReadAttributeRecord(attrid=aid, status=st)
        wire = le(aid, 2) + bytes([st])
        E.reach("failed_record")
    E.check(r.serialize() == wire, "record layout")
    y, left = f.ReadAttributeRecord.deserialize(wire + b"\x55")
    E.check(E.all(y.attrid == aid, y.status == st, left == b"\x55"), "record fields")
    if v is None:
        E.check(y.value is None, "a failed record has a value")
    else:
        E.check(E.all(y.value.type == i, gen.same(E, y.value.value, v)), "record value")
    z = f.ReadAttributeRecord(y)
    E.check(E.all(z.attrid == aid, z.status == st, z.value is y.value), "copy of a record")
    # an attribute report
    if v is not None:
        a = f.Attribute(attrid=aid, value=f.TypeValue(type=d.type_id, value=v))
        wire = le(aid, 2) + bytes([i]) + v.serialize()
        E.check(a.serialize() == wire, "attribute layout")
        b, left = f.Attribute.deserialize(wire + b"\x55")
        E.check(E.all(b.attrid == aid, b.value.type == i, gen.same(E, b.value.value, v), left == b"\x55"), "attribute")


def unknown_type(E):
    i = E.bits("id", 8)
    for k in TABLE:
        E.assume(i != k)
    E.assume(i != 0xFF)
    data = bytes([i]) + E.bytes("data", 3)
    E.check(E.raises((ValueError, KeyError), f.TypeValue.deserialize, data), "a value of an unknown type is made up")
    # reporting configuration of unknown types: nothing follows the intervals
    mn, mx, aid = E.bits("min", 16), E.bits("max", 16), E.bits("attrid", 16)
    wire = b"\x00" + le(aid, 2) + bytes([i]) + le(mn, 2) + le(mx, 2)
    c, left = f.AttributeReportingConfig.deserialize(wire + b"\x55")
    E.check(E.all(left == b"\x55", c.datatype == i, c.attrid == aid, c.min_interval == mn, c.max_interval == mx), "configuration of unknown type")
    E.reach("unknown")


def config(E, ids):
    aid = E.bits("attrid", 16)
    if E.bool("receive"):
        to = E.bits("timeout", 16)
        wire = b"\x01" + le(aid, 2) + le(to, 2)
        c, left = f.AttributeReportingConfig.deserialize(wire + b"\x55")
        E.check(E.all(left == b"\x55", c.direction == 1, c.attrid == aid, c.timeout == to), "receive configuration")
        E.reach("receive")
    else:
        i = E.pick("id", ids)
        mn, mx = E.bits("min", 16), E.bits("max", 16)
        d = f.DataType.from_type_id(i)
        v = gen.value(E, d.python_type) if TABLE[i][1] == "A" else None
        wire = b"\x00" + le(aid, 2) + bytes([i]) + le(mn, 2) + le(mx, 2)
        if v is not None:
            wire = wire + v.serialize()
        c, left = f.AttributeReportingConfig.deserialize(wire + b"\x55")
        E.check(E.all(left == b"\x55", c.direction == 0, c.attrid == aid, c.datatype == i, c.min_interval == mn, c.max_interval == mx), "send configuration")
        if v is not None:
            E.check(gen.same(E, c.reportable_change, v), "reportable change")
    E.check(c.serialize() == wire, "a configuration is written back as read")
    k = f.AttributeReportingConfig(c)
    E.check(E.all(k.serialize() == wire, gen.same(E, k, c)), "a copy of a configuration")
    E.reach("config")


def shown(E):
    """Every configuration can be shown and copied, whether or not it has a reportable change."""
    i = E.pick("id", sorted(TABLE) + [0x01, 0x7E])
    k = E.choice("kind", 4)
    wire = [b"\x00\x02\x00", b"\x01\x02\x00", b"\x01\x02\x00\x05\x00", b"\x00\x02\x00" + bytes([i]) + b"\x01\x00\x02\x00" + bytes(16)][k]
    c, _ = f.AttributeReportingConfig.deserialize(wire, _only_dir_and_attrid=k < 2)
    E.check(E.all(len(repr(c)) > 0, len(str(f.AttributeReportingConfig(c))) > 0), "a configuration cannot be shown")


def config_status(E):
    aid, to, d = E.bits("attrid", 16), E.bits("timeout", 16), E.choice("dir", 2)
    wire = bytes([d]) + le(aid, 2) + (le(to, 2) if d else b"\x21" + le(to, 2) + le(to, 2) + le(to, 2))
    c, _ = f.AttributeReportingConfig.deserialize(wire)
    st = E.bits("status", 8)
    w = f.AttributeReportingConfigWithStatus.deserialize
    if E.bool("ok"):
        E.assume(st == 0)
        x, left = w(bytes([st]) + wire + b"\x55")
        E.check(E.all(x.status == 0, gen.same(E, x.config, c), left == b"\x55", x.serialize() == b"\x00" + wire), "configuration with status")
    else:
        E.assume(st != 0)
        head = wire[:3]
        x, left = w(bytes([st]) + head + b"\x55")
        E.check(E.all(x.status == st, x.config.attrid == aid, left == b"\x55", x.serialize() == bytes([st]) + head), "failed configuration")
        y = f.AttributeReportingConfig(x.config)
        E.check(E.all(y.attrid == aid, y.direction == x.config.direction), "copy of a failed configuration")


def wresp(E):
    """Write responses carry the failures, or one success."""
    n = E.choice("n", 4)
    recs, wire = [], b""
    for _ in range(n):
        st, aid = E.bits("status", 8), E.bits("attrid", 16)
        recs.append(f.WriteAttributesStatusRecord(status=f.Status(st), attrid=t.uint16_t(aid)))
        if st != 0:
            wire = wire + bytes([st]) + le(aid, 2)
    if wire == b"":
        wire = b"\x00"
    E.check(f.WriteAttributesResponse(recs).serialize() == wire, "write response layout")
    y, left = f.WriteAttributesResponse.deserialize(wire)
    E.check(left == b"", "all records are read")
    if wire == b"\x00":
        E.check(E.all(len(y) == 1, y[0].status == 0), "one success")
    else:
        failed = [r for r in recs if r.status != 0]
        E.check(E.all(len(y) == len(failed), *[E.all(a.status == b.status, a.attrid == b.attrid) for a, b in zip(y, failed)]), "failed writes in order")
    E.reach("wresp")


def cresp(E):
    n = E.choice("n", 3) + 1
    recs, wire = [], b""
    for _ in range(n):
        st, aid, d = E.bits("status", 8), E.bits("attrid", 16), E.choice("dir", 2)
        recs.append(f.ConfigureReportingResponseRecord(status=f.Status(st), direction=f.ReportingDirection(d), attrid=t.uint16_t(aid)))
        if st != 0:
            wire = wire + bytes([st, d]) + le(aid, 2)
    if wire == b"":
        wire = b"\x00"
    E.check(f.ConfigureReportingResponse(recs).serialize() == wire, "configuration response layout")
    y, left = f.ConfigureReportingResponse.deserialize(wire)
    E.check(left == b"", "all records are read")
    if wire == b"\x00":
        E.check(E.all(len(y) == 1, y[0].status == 0), "one success")
    else:
        failed = [r for r in recs if r.status != 0]
        E.check(E.all(len(y) == len(failed), *[E.all(a.status == b.status, a.attrid == b.attrid, a.direction == b.direction) for a, b in zip(y, failed)]), "failed configurations in order")
    E.reach("cresp")


def units(tier):
    out = [("table", table, {}), ("nonvalue", nonvalue, {}), ("structure", structure, {}), ("unknown", unknown_type, {}), ("wresp", wresp, {}), ("cresp", cresp, {}), ("shown", shown, {}), ("config_status", config_status, {})]
    for k in range(0, len(SIMPLE), 10):
        ids = SIMPLE[k:k + 10]
        out += [(f"typed/{k}", typed, {"ids": ids}), (f"record/{k}", record, {"ids": ids}), (f"config/{k}", config, {"ids": ids})]
    out += [(f"collection/{e:02x}", collection, {"elem": e}) for e in ELEMS]
    n = len(attributes())
    step = 120
    out += [(f"attribute/{i}", attribute, {"lo": i, "hi": i + step}) for i in range(0, n, step)]
    return out
