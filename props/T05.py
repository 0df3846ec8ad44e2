"""Structures: field order, bit packing, conditional and optional fields, integer structures, freezing."""

import operator

import zigpy.application  # noqa: F401
import zigpy.ota.image
import zigpy.types as t
import zigpy.zcl.clusters  # noqa: F401
import zigpy.zcl.foundation as f
import zigpy.zdo.types as zdot
from props import gen
from props.common import chunks

BOUNDS = ("every structure class outside of cluster commands and OTA images: all field values, list fields with 0..2 items; arbitrary "
          "buffers of up to 8 bytes (thorough: 14); generic structures with every bit layout listed in LAYOUTS, conditional and optional fields")
OUTSIDE = "integer structures used in arithmetic or as a truth value (they count as 0); structures with more than 2 list items; bit layouts other than the 13 generic ones and those zigpy defines"
ASSUMPTIONS = ["reserved address modes and unlisted typed-value ids are outside (Z03, Z05)"]
REACH = ["roundtrip", "prefix", "decoded", "refused", "layout", "cond", "optional", "int", "missing", "frozen", "matching", "as_dict"]

LAYOUTS = [(1, 2, 5), (4, 4), (3, 5), (8, 4, 4), (1, 7, 16), (2, 6, 8, 3, 5), (16, 4, 4, 1, 7), (7, 1, 2, 3, 3),
           (8, 24), (24, 16, 40), (4, 4, 40, 24), (48, 8, 56), (64, 32)]
SKIP = (zigpy.ota.image.OTAImageHeader, zigpy.ota.image.OTAImage, zigpy.ota.image.SubElement)
#: what these drop or normalise on purpose when written back
NOT_CANONICAL = {"ConfigureReportingResponseRecord", "SizePrefixedSimpleDescriptor", "Attribute", "AttributeReportingConfigWithStatus", "PowerDescriptor"}


def classes():
    out = {}

    def rec(c):
        for s in type.__subclasses__(c):
            if s.__name__ != "Optional" and not issubclass(s, f.CommandSchema) and s not in SKIP and s.__module__.startswith("zigpy."):
                out.setdefault(f"{s.__module__}.{s.__qualname__}", s)
            rec(s)

    rec(t.Struct)
    return out


CLASSES = classes()
CLASSES.pop("zigpy.zcl.foundation.CommandSchema", None)


def roundtrip(E, name):
    cls = CLASSES[name]
    x = gen.value(E, cls)
    data = x.serialize()
    tail = E.bytes_upto("tail", 0, 2) if not name.endswith("Descriptor") else b"\x5a"
    if name.endswith("ConfigureReportingResponseRecord"):
        tail = b""  # always the last thing in a message
    y, rest = cls.deserialize(data + tail)
    E.check(E.all(isinstance(y, cls), gen.same(E, x, y)), f"{name} does not read back what was written")
    E.check(rest == tail, f"{name} does not consume exactly what it wrote")
    if cls.serialize is t.Struct.serialize:
        E.check(data == gen.wire(E, x), f"{name}: bytes are not the fields in order")
    E.check(x.is_valid, f"{name}: a complete value is not valid")
    kw = {fld.name: getattr(x, fld.name) for fld in cls.fields}
    z = cls(**kw)
    E.check(gen.same(E, z, x), f"{name}: construction by name changes values")
    if name.rsplit(".", 1)[-1] not in ("AttributeReportingConfigWithStatus", "ZCLHeader"):
        E.check(gen.same(E, cls(x), x), f"{name}: the copy differs")
    E.observe("data", data)
    E.reach("roundtrip")


def prefixes(E, name):
    cls = CLASSES[name]
    x = gen.value(E, cls, (1, 1))
    data = x.serialize()
    k = E.choice("k", len(data))
    if name.endswith("SizePrefixedSimpleDescriptor") and k == 0:
        return  # no descriptor at all
    if name.endswith("ConfigureReportingResponseRecord") and k >= 1 and x.status == f.Status.SUCCESS:
        return
    E.check(E.raises(ValueError, cls.deserialize, data[:k]), f"{name} accepts truncated data")
    E.reach("prefix")


def decode(E, name, n):
    cls = CLASSES[name]
    data = E.bytes_upto("data", 0, n)
    try:
        x, rest = cls.deserialize(data)
    except ValueError:
        E.reach("refused")
        return
    used = len(data) - len(rest)
    E.check(rest == data[used:], f"{name}: the remainder is not a suffix of the data")
    if name.rsplit(".", 1)[-1] not in NOT_CANONICAL:
        E.check(x.serialize() == data[:used], f"{name} writes something else than it read")
    E.reach("decoded")


def layout(E, widths):
    ann = {f"f{i}": getattr(t, f"uint{w}_t") for i, w in enumerate(widths)}
    S = type("S", (t.Struct,), {"__annotations__": ann, "__module__": __name__})
    vals = [E.bits(f"f{i}", w) for i, w in enumerate(widths)]
    x = S(**{f"f{i}": v for i, v in enumerate(vals)})
    data = x.serialize()
    # bytes come in declaration order, bits of a byte group are filled starting from the least significant
    ref, acc, off = b"", 0, 0
    for v, w in zip(vals, widths):
        if off == 0 and w % 8 == 0:
            ref += bytes([(v >> (8 * i)) & 0xFF for i in range(w // 8)])
            continue
        acc, off = acc | (v << off), off + w
        if off % 8 == 0:
            ref += bytes([(acc >> (8 * i)) & 0xFF for i in range(off // 8)])
            acc, off = 0, 0
    E.check(data == ref, "bits are not where they belong")
    tail = E.bytes("tail", 1)
    y, rest = S.deserialize(data + tail)
    E.check(E.all(rest == tail, *[getattr(y, f"f{i}") == v for i, v in enumerate(vals)]), "fields do not read back")
    E.check(E.all(x == y, S.from_dict(x.as_dict()) == x), "equal values compare unequal")
    k = E.choice("k", len(data))
    E.check(E.raises(ValueError, S.deserialize, data[:k]), "truncated data is accepted")
    other = E.bits("other", widths[0])
    z = x.replace(f0=other)
    E.check((z == x) == (other == vals[0]), "replacing a field")
    E.check(E.all(x.f0 == vals[0], z.f0 == other, *[getattr(z, f"f{i}") == v for i, v in enumerate(vals) if i]), "replace touches other fields")
    E.check(E.raises(ValueError, S, f0=1 << widths[0]), "a value that does not fit a field is accepted")
    E.reach("layout")


class Cond(t.Struct):
    kind: t.uint8_t
    a: t.uint16_t = t.StructField(requires=lambda s: s.kind == 1)
    b: t.uint8_t = t.StructField(requires=lambda s: s.kind & 2)
    c: t.uint8_t
    d: t.uint16_t = t.StructField(optional=True)


def conditional(E):
    k, a, b, c, d = E.bits("kind", 8), E.bits("a", 16), E.bits("b", 8), E.bits("c", 8), E.bits("d", 16)
    with_d = E.bool("with_d")
    x = Cond(kind=k, a=a, b=b, c=c)
    if with_d:
        x.d = t.uint16_t(d)
    data = x.serialize()
    ref = bytes([k])
    if k == 1:
        ref += bytes([a & 0xFF, a >> 8])
    if k & 2:
        ref += bytes([b])
    ref += bytes([c])
    if with_d:
        ref += bytes([d & 0xFF, d >> 8])
    E.check(data == ref, "conditional and optional fields are written when and only when they apply")
    y, rest = Cond.deserialize(data)
    E.check(rest == b"", "leftover")
    E.check(E.all(y.kind == k, y.c == c), "plain fields")
    if k == 1:
        E.check(y.a == a, "a")
    else:
        E.check(y.a is None, "a read without being there")
    if k & 2:
        E.check(y.b == b, "b")
    else:
        E.check(y.b is None, "b read without being there")
    if with_d:
        E.check(y.d == d, "d")
        E.reach("optional")
    else:
        E.check(y.d is None, "d")
    E.reach("cond")


def missing(E):
    name = E.pick("class", [n for n in sorted(CLASSES) if CLASSES[n].serialize is t.Struct.serialize])
    cls = CLASSES[name]
    x = gen.value(E, cls, (1, 1))
    req = [fl.name for fl in cls.fields if not fl.optional and fl.requires is None]
    victim = E.pick("victim", req)
    E.assume(not any(fl.requires is not None for fl in cls.fields))
    setattr(x, victim, None)
    E.check(E.raises(ValueError, x.serialize), f"{name} is written although {victim} is missing")
    E.check(E.not_(x.is_valid), f"{name} is valid although {victim} is missing")
    E.reach("missing")


def ints(E, name):
    cls = CLASSES[name]
    bits = cls._int_type._bits
    v, w = E.bits("v", bits), E.bits("w", bits)
    x, y = cls(v), cls(w)
    E.check(int(x) == v, f"{name}: integer value changes")
    E.check(E.all(x == v, (x == y) == (v == w), (x != y) == (v != w), (x < w) == (v < w), (x <= w) == (v <= w), (x > w) == (v > w), (x >= w) == (v >= w)), f"{name}: order")
    for op in ("eq", "ne", "lt", "le", "gt", "ge"):
        E.check(getattr(operator, op)(x, w) == getattr(operator, op)(v, w), f"{name}: order among integers ({op})")
    E.check(x.serialize() == cls._int_type(v).serialize(), f"{name}: wire form")
    E.reach("int")


def frozen(E, name):
    cls = CLASSES[name]
    x = gen.value(E, cls, (0, 0))
    y = cls(**{fl.name: getattr(x, fl.name) for fl in cls.fields})
    E.check(E.raises(TypeError, hash, x), f"{name}: mutable values must not be hashable")
    a = x.freeze()
    E.check(a == x, f"{name}: freezing changes the value")
    E.check(hash(a) == hash(y.freeze()), f"{name}: equal frozen values hash differently")
    fl = cls.fields[0]
    E.check(E.raises(AttributeError, setattr, a, fl.name, getattr(x, fl.name)), f"{name}: frozen value can be changed")
    b = a.replace(**{fl.name: getattr(x, fl.name)})
    E.check(E.all(b == a, E.raises(AttributeError, setattr, b, fl.name, None)), f"{name}: replace on a frozen value")
    E.reach("frozen")


class Inner(t.Struct):
    x: t.uint8_t
    y: t.uint16_t


class Outer(t.Struct):
    p: t.uint8_t
    q: Inner
    r: t.LVBytes


def matching(E):
    """Every value and pattern: a pattern matches when the fields set in it are equal."""
    def make(n):
        return Outer(p=E.bits(n + "p", 8), q=Inner(x=E.bits(n + "x", 8), y=E.bits(n + "y", 16)), r=E.bytes_upto(n + "r", 0, 1))

    a, b = make("a"), make("b")
    want = []
    for attr in ("p", "r"):
        if E.bool("has_" + attr):
            want.append(getattr(a, attr) == getattr(b, attr))
        else:
            setattr(b, attr, None)
    if E.bool("has_q"):
        for attr in ("x", "y"):
            if E.bool("has_" + attr):
                want.append(getattr(a.q, attr) == getattr(b.q, attr))
            else:
                setattr(b.q, attr, None)
    else:
        b.q = None
    E.check(a.matches(b) == E.all(True, *want), "a partial structure matches something else than its fields say")
    E.check(not a.matches(a.q), "a structure of another kind matches")
    E.reach("matching")


def as_dict(E):
    """The dictionary form has every field, or every one that is set, and leads back to the same value; freezing goes all the way down."""
    x = Outer(p=E.bits("p", 8), q=Inner(x=E.bits("x", 8), y=E.bits("y", 16)), r=E.bytes_upto("r", 0, 1))
    for attr in ("p", "r"):
        if E.bool("without_" + attr):
            setattr(x, attr, None)
    if E.bool("without_y"):
        x.q.y = None
    full, some = x.as_dict(), x.as_dict(skip_missing=True, recursive=True)
    E.check(E.all(list(full) == ["p", "q", "r"], full["p"] == x.p, full["q"] == x.q, full["r"] == x.r), "dictionary form")
    E.check(E.all(list(some) == [a for a in ("p", "q", "r") if getattr(x, a) is not None], *[some[a] == getattr(x, a) for a in ("p", "r") if a in some]),
            "dictionary form without missing fields")
    E.check(E.all(list(some["q"]) == [a for a in ("x", "y") if getattr(x.q, a) is not None], *[some["q"][a] == getattr(x.q, a) for a in some["q"]]),
            "nested dictionary form without missing fields")
    E.check(Outer.from_dict(some) == x, "the dictionary form leads to another value")
    E.check(tuple(x.as_tuple()) == (x.p, x.q, x.r), "tuple form")
    a = x.freeze()
    E.check(a == x, "freezing changes a value")
    E.check(E.raises(AttributeError, setattr, a.q, "x", 1), "a part of a frozen value can be changed")
    b = a.replace(p=E.bits("p2", 8))
    E.check(E.all(b.q == x.q, E.raises(AttributeError, setattr, b.q, "x", 1), E.raises(AttributeError, setattr, b, "p", 1)), "what replaces a frozen value can be changed")
    E.reach("as_dict")


def units(tier):
    out = []
    n = 8 if tier == "quick" else 14
    for name in sorted(CLASSES):
        short = name.rsplit(".", 1)[-1]
        out.append((f"roundtrip/{short}", roundtrip, {"name": name}))
        out.append((f"prefix/{short}", prefixes, {"name": name}))
        if short != "Attribute":  # typed values: Z03
            out.append((f"decode/{short}", decode, {"name": name, "n": n}))
        if CLASSES[name]._int_type is not None:
            out.append((f"int/{short}", ints, {"name": name}))
    for name in ("zigpy.types.named.TimeOfDay", "zigpy.zdo.types.Route", "zigpy.zcl.foundation.ReadReportingConfigRecord"):
        out.append((f"frozen/{name.rsplit('.', 1)[-1]}", frozen, {"name": name}))
    for w in LAYOUTS:
        out.append((f"layout/{'-'.join(map(str, w))}", layout, {"widths": w}))
    out.append(("conditional", conditional, {}))
    out.append(("missing", missing, {}))
    out.append(("matching", matching, {}))
    out.append(("as_dict", as_dict, {}))
    return out
