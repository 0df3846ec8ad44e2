"""Arbitrary values of zigpy's wire types, built field by field from symbolic input."""

import zigpy.types as t
import zigpy.zcl.foundation as f
import zigpy.zdo.types as zdot
from zigpy.types.basic import BaseFloat, FixedIntType
from zigpy.zcl.clusters.security import _SquawkOrWarningCommand

#: a cross-section of ZCL data types used where a value may have any type
TYPE_IDS = [f.DataTypeId.uint8, f.DataTypeId.int16, f.DataTypeId.bool_, f.DataTypeId.map8, f.DataTypeId.enum8,
            f.DataTypeId.string, f.DataTypeId.octstr, f.DataTypeId.nodata, f.DataTypeId.uint48, f.DataTypeId.single]
ANALOG = [f.DataTypeId.uint8, f.DataTypeId.int16, f.DataTypeId.uint40, f.DataTypeId.single, f.DataTypeId.ToD, f.DataTypeId.UTC]
DISCRETE = [f.DataTypeId.bool_, f.DataTypeId.map16, f.DataTypeId.octstr]


def fixed_int(E, cls, name="v"):
    return cls(E.int(name, cls.min_value, cls.max_value) if not issubclass(cls, t.Struct) else E.bits(name, cls._bits))


def octets(E, n, name="b"):
    return E.bytes(name, n)


def text(E, cls, n, name="s"):
    return cls("".join([chr(E.int(name, 1, 0x7F)) for _ in range(n)]))


def typed_value(E, ids=None):
    tid = E.pick("type", ids or TYPE_IDS)
    info = f.DataType.from_type_id(tid)
    return f.TypeValue(type=tid, value=value(E, info.python_type))


def reporting_config(E, only_direction=False):
    c = f.AttributeReportingConfig()
    c.direction = f.ReportingDirection(E.int("dir", 0, 1))
    c.attrid = t.uint16_t(E.bits("attrid", 16))
    if only_direction:
        return c
    if c.direction == f.ReportingDirection.ReceiveReports:
        c.timeout = t.uint16_t(E.bits("timeout", 16))
        return c
    c.datatype = t.uint8_t(E.pick("datatype", ANALOG + DISCRETE))
    c.min_interval = t.uint16_t(E.bits("min", 16))
    c.max_interval = t.uint16_t(E.bits("max", 16))
    info = f.DataType.from_type_id(c.datatype)
    if info.type_class is f.DataClass.Analog:
        c.reportable_change = value(E, info.python_type)
    return c


def struct(E, cls, sizes):
    """Fill a structure field by field, honouring its own conditions on fields."""
    inst = cls()
    for fld in cls.fields:
        if fld.requires is not None and not fld.requires(inst):
            continue
        if fld.optional and E.choice("skip_" + fld.name, 2):
            # optional fields are only ever missing at the end
            break
        setattr(inst, fld.name, value(E, fld.get_type(inst), sizes, fld.name))
    return inst


def value(E, cls, sizes=(0, 2), name="v"):
    lo, hi = sizes
    n = None

    def count():
        return lo + E.choice("n_" + name, hi - lo + 1)

    if cls is f.AttributeReportingConfig:
        return reporting_config(E)
    if cls is f.AttributeReportingConfigWithStatus:
        st = fixed_int(E, f.Status, "status")
        return cls(status=st, config=reporting_config(E, st != f.Status.SUCCESS))
    if cls is f.ConfigureReportingResponseRecord:
        r = cls()
        r.status = fixed_int(E, f.Status, "status")
        if r.status != f.Status.SUCCESS:
            r.direction = f.ReportingDirection(E.int("dir", 0, 1))
            r.attrid = t.uint16_t(E.bits("attrid", 16))
        return r
    if cls is f.ReadAttributeRecord:
        st = fixed_int(E, f.Status, "status")
        v = None
        if st == f.Status.SUCCESS:
            v = typed_value(E)
        return cls(attrid=E.bits("attrid", 16), status=st, value=v)
    if cls is f.TypeValue:
        return typed_value(E)
    if cls is f.WriteAttributesResponse:
        n = E.choice("n_failed", 3)
        if not n:
            return cls([f.WriteAttributesStatusRecord(status=f.Status.SUCCESS)])
        out = cls()
        for _ in range(n):
            st = fixed_int(E, f.Status, "status")
            E.assume(st != f.Status.SUCCESS)
            out.append(f.WriteAttributesStatusRecord(status=st, attrid=t.uint16_t(E.bits("attrid", 16))))
        return out
    if cls is f.ConfigureReportingResponse:
        n = E.choice("n_failed", 3)
        if not n:
            return cls([f.ConfigureReportingResponseRecord(status=f.Status.SUCCESS)])
        out = cls()
        for _ in range(n):
            r = value(E, f.ConfigureReportingResponseRecord)
            E.assume(r.status != f.Status.SUCCESS)
            out.append(r)
        return out
    if cls is zdot.MultiAddress:
        m = cls()
        m.addrmode = t.uint8_t([1, 3][E.choice("addrmode", 2)])
        if m.addrmode == 1:
            m.nwk = t.uint16_t(E.bits("nwk", 16))
        else:
            m.ieee = value(E, t.EUI64, name="ieee")
            m.endpoint = t.uint8_t(E.bits("ep", 8))
        return m
    if issubclass(cls, t.NoData):
        return cls()
    if issubclass(cls, t.Struct):
        return struct(E, cls, sizes)
    if issubclass(cls, FixedIntType):
        return fixed_int(E, cls, name)
    if issubclass(cls, BaseFloat):
        return cls.deserialize(E.bytes(name, cls._size))[0]
    if issubclass(cls, t.LVBytes):
        return cls(E.bytes(name, 2 if issubclass(cls, t.LVBytesSize2) else count()))
    if issubclass(cls, t.CharacterString):
        return text(E, cls, count(), name)
    if issubclass(cls, t.FixedList):
        return cls([value(E, cls._item_type, sizes, name) for _ in range(cls._length)])
    if issubclass(cls, (t.LVList, t.List)):
        return cls([value(E, cls._item_type, sizes, name) for _ in range(count())])
    if issubclass(cls, bytes):
        return cls(E.bytes(name, count()))
    if issubclass(cls, _SquawkOrWarningCommand):
        return cls(E.bits(name, 8))
    if cls.__name__ == "HeaderString":
        return cls("".join([chr(E.int(name, 1, 0x7F)) for _ in range(count())]))
    if cls.__name__ == "LVBytes32":
        return cls(E.bytes(name, count()))
    raise TypeError(f"no generator for {cls}")


def wire(E, x):
    """Reference wire form of a plain structure: present fields in order, integers in
    their own byte order, runs of sub-byte integers packed from the least significant bit."""
    out, acc, off = b"", 0, 0
    for fl in x.fields:
        if fl.requires is not None and not fl.requires(x):
            continue
        v = getattr(x, fl.name)
        if v is None:
            continue
        ft = type(v)
        if isinstance(v, FixedIntType) and not isinstance(v, t.Struct):
            w = ft._bits
            u = (v + 0) & ((1 << w) - 1)
            if off == 0 and w % 8 == 0:
                bs = bytes([(u >> (8 * i)) & 0xFF for i in range(w // 8)])
                out += bs[::-1] if ft._byteorder == "big" else bs
                continue
            acc, off = acc | (u << off), off + w
            if off % 8 == 0:
                out += bytes([(acc >> (8 * i)) & 0xFF for i in range(off // 8)])
                acc, off = 0, 0
            continue
        out += v.serialize()
    return out


def same(E, a, b):
    """Deep equality of two wire values, for types that define no equality of their own."""
    if isinstance(a, f.AttributeReportingConfig):
        return E.all(*[same(E, getattr(a, n, None), getattr(b, n, None)) for n in
                       ("direction", "attrid", "timeout", "datatype", "min_interval", "max_interval", "reportable_change")])
    if isinstance(a, f.AttributeReportingConfigWithStatus):
        return E.all(a.status == b.status, same(E, a.config, b.config))
    if isinstance(a, (f.TypeValue, f.ReadAttributeRecord)):
        keys = ("type", "value") if isinstance(a, f.TypeValue) else ("attrid", "status", "value")
        return E.all(type(a) is type(b), *[same(E, getattr(a, k), getattr(b, k)) for k in keys])
    if isinstance(a, t.Struct):
        return E.all(isinstance(b, t.Struct), *[same(E, getattr(a, x.name), getattr(b, x.name)) for x in a.fields])
    if isinstance(a, t.NoData):
        return isinstance(b, t.NoData)
    if isinstance(a, BaseFloat):
        return a.serialize() == b.serialize()
    if isinstance(a, list):
        return E.all(isinstance(b, list), len(a) == len(b), *[same(E, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, _SquawkOrWarningCommand):
        return E.all(type(a) is type(b), a.value == b.value)
    return a == b
