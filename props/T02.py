"""Enumerations and bitmaps."""

import enum
import re

import zigpy.application  # noqa: F401
import zigpy.ota  # noqa: F401
import zigpy.quirks.v2  # noqa: F401
import zigpy.types as t
import zigpy.zcl.clusters  # noqa: F401
import zigpy.zcl.foundation  # noqa: F401
import zigpy.zdo.types  # noqa: F401
from zigpy.types.basic import FixedIntType
from zigpy.zcl.clusters.general import PowerSource
from props.common import chunks

BOUNDS = "every enum and bitmap class zigpy defines that derives from its integer types (about 260); every integer from -2 to twice the type's range"
OUTSIDE = "names given to unlisted bitmap combinations; inverting (~ follows the standard library, which inverts only the listed bits)"
ASSUMPTIONS = ["the standard library's Flag._missing_ is summarised by its boundary rule (value part only)"]
REACH = ["member", "undefined", "reject", "bitmap", "backup", "text"]


def classes():
    out = {}

    def rec(c):
        for s in type.__subclasses__(c):
            if isinstance(s, enum.EnumMeta) and s.__name__ != "_NewEnum":
                out.setdefault(f"{s.__module__}.{s.__qualname__}", s)
            rec(s)

    rec(FixedIntType)
    return out


CLASSES = classes()
#: before any power source is read
FRESH = [getattr(m, "battery_backup", None) for m in PowerSource]


def layout(cls):
    """Width and byte order, from the name of the basic type it derives from."""
    for c in cls.__mro__:
        m = re.fullmatch(r"(?:enum|bitmap|uint)(\d+)(?:_t)?(_be)?", c.__name__)
        if m and c.__module__ == "zigpy.types.basic":
            return int(m[1]), "big" if m[2] else "little"


def one(E, names):
    name = E.pick("class", names)
    cls = CLASSES[name]
    bits = cls._bits
    flag = issubclass(cls, enum.Flag)
    v = E.int("v", 0 if flag else -2, (1 << (bits + 1)) - 1)
    ok = E.all(v >= 0, v < (1 << bits))
    try:
        x = cls(v)
    except ValueError:
        E.check(E.not_(ok), f"{name} cannot represent a value of its range")
        E.reach("reject")
        return
    E.check(ok, f"{name} accepts a value out of range")
    E.check(isinstance(x, cls), f"{name}: wrong class")
    E.check(x + 0 == v, f"{name} changes the value")
    E.check(x.value == v, f"{name}.value differs")
    members = {int(m): m for m in cls}
    if v in members:
        E.check(x is members[v] or x == members[v], f"{name}: not the listed member")
        if not flag:
            E.check(x.name == members[v].name, f"{name}: wrong name")
        E.reach("member")
    elif not flag:
        E.check(x.name not in cls.__members__, f"{name}: unlisted value takes a member's name")
        E.reach("undefined")
    if bits % 8 == 0:
        n = bits // 8
        s = x.serialize()
        width, order = layout(cls)
        E.check(n * 8 == width, f"{name} does not have the width of its type")
        E.check(s == v.to_bytes(n, order), f"{name} is not written as {order} endian {width} bits")
        y, rest = cls.deserialize(s + b"\xa5")
        keep = 0x7F if name.endswith(".PowerSource") else -1  # bit 7 of a power source is its battery flag
        E.check(E.all(y + 0 == (v & keep), isinstance(y, cls)), f"{name} does not read back what it wrote")
        E.check(rest == b"\xa5", f"{name} consumes other data")
        E.observe("s", s)
        k = E.choice("short", n)
        E.check(E.raises(ValueError, cls.deserialize, s[:k]), f"{name} accepts short data")


def ops(E, names):
    name = E.pick("class", names)
    cls = CLASSES[name]
    bits = cls._bits
    v, w = E.bits("v", bits), E.bits("w", bits)
    x, y = cls(v), cls(w)
    for r, ref, op in ((x | y, v | w, "|"), (x & y, v & w, "&"), (x ^ y, v ^ w, "^")):
        E.check(isinstance(r, cls), f"{name}: {op} leaves the type")
        E.check(r + 0 == ref, f"{name}: {op} loses bits")
    for m in cls:
        E.check((m in x) == bool((v & int(m)) == int(m)), f"{name}: membership of {m}")
        break
    E.reach("bitmap")


def backup(E):
    """A power source read says whether there is a battery besides, whatever is read afterwards."""
    for m, fresh in zip(PowerSource, FRESH):
        E.check(fresh is False, "a listed power source has no battery besides")
        m.battery_backup = fresh  # as in a new process
    a, b = E.bits("a", 8), E.bits("b", 8)
    x, rest = PowerSource.deserialize(bytes([a]) + b"\x5a")
    y, _ = PowerSource.deserialize(bytes([b]))
    E.check(rest == b"\x5a", "takes other data")
    for v, r in ((a, x), (b, y)):
        E.check(E.all(isinstance(r, PowerSource), r + 0 == (v & 0x7F), r.value == (v & 0x7F)), "another power source")
        E.check(bool(r.battery_backup) == bool(v & 0x80), "the battery of another power source")
        E.check(r.name == PowerSource(v & 0x7F).name, "another name")
    E.check(not PowerSource.Battery.battery_backup, "a listed power source has a battery besides")
    E.reach("backup")


def text(E, name):
    """Members by name, with or without the name of the class, and values in decimal or hexadecimal."""
    cls = CLASSES[name]
    v = E.int("v", 0, (1 << cls._bits) - 1)
    how = E.pick("how", ["0x", "decimal", "name", "full", "bad", "big"])
    if how == "0x":
        x = cls("0x" + hex_of(E, v, cls._bits))
        E.check(E.all(isinstance(x, cls), x + 0 == v), "the value written in hexadecimal")
    elif how == "decimal":
        digits = []
        n = v
        for _ in range(len(str((1 << cls._bits) - 1))):
            digits.append(n % 10)
            n = n // 10
        x = cls("".join([chr(48 + d) for d in reversed(digits)]))
        E.check(E.all(isinstance(x, cls), x + 0 == v), "the value written in decimal")
    elif how == "big":
        E.check(E.raises(ValueError, cls, hex(1 << cls._bits)) and E.raises(ValueError, cls, str(1 << cls._bits)), "a value out of range in text")
    elif how == "bad":
        E.check(E.raises(KeyError, cls, "no such member") and E.raises(KeyError, cls, cls.__name__ + ".nosuch"), "a name it does not have")
    else:
        for m in list(cls)[:6]:
            E.check(cls(m.name if how == "name" else f"{cls.__name__}.{m.name}") is m, "the member of that name")
    E.reach("text")


def hex_of(E, v, bits):
    return "".join([chr((lambda d: E.ite(d < 10, 48 + d, 87 + d))((v >> (4 * i)) & 15)) for i in reversed(range(bits // 4))])


def units(tier):
    names = sorted(CLASSES)
    flags = [n for n in names if issubclass(CLASSES[n], enum.Flag)]
    out = [(f"value/{c[0]}", one, {"names": c}, {"full_enums": True}) for c in chunks(names, 8)]
    out += [(f"ops/{c[0]}", ops, {"names": c}) for c in chunks(flags, 20)]
    for n in ("zigpy.zcl.foundation.Status", "zigpy.zcl.clusters.security.IasZone.ZoneType" if "zigpy.zcl.clusters.security.IasZone.ZoneType" in CLASSES else "zigpy.zcl.clusters.general.PowerSource"):
        out.append((f"text/{n.rsplit('.', 1)[-1]}", text, {"name": n}, {"full_enums": True}))
    return [*out, ("backup", backup, {}, {"full_enums": True})]
