"""Fixed-width integers."""

import re

import zigpy.types as t
from zigpy.types.basic import Bits, FixedIntType
from props.common import be, chunks, from_le, le

BOUNDS = ("every concrete integer type exported by zigpy.types (1..64 bits, both signs, both byte orders); values over three "
          "times the type's range; any buffer up to two bytes longer than the type, any trailing bytes")
OUTSIDE = "non-integer constructor arguments (floats, strings)"
ASSUMPTIONS = ["the type's intended width, signedness and byte order are read off its public name"]
REACH = ["accept", "reject", "decode", "short", "bits"]


def int_types():
    out = {}
    for n in dir(t):
        c = getattr(t, n)
        m = re.fullmatch(r"(u?)int(\d+)(s|_t)(_be)?", n)
        if m and isinstance(c, type) and issubclass(c, FixedIntType):
            out[n] = (int(m[2]), m[1] != "u", bool(m[4]))
    return out


TYPES = int_types()


def construct(E, names):
    name = E.pick("type", names)
    bits, signed, big = TYPES[name]
    cls = getattr(t, name)
    lo = -(1 << (bits - 1)) if signed else 0
    hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1
    v = E.int("v", -(1 << (bits + 1)), (1 << (bits + 1)))
    ok = E.all(v >= lo, v <= hi)
    try:
        x = cls(v)
    except ValueError:
        E.check(E.not_(ok), f"{name} rejects a value in its range")
        E.reach("reject")
        return
    E.check(ok, f"{name} accepts a value outside its range")
    E.check(x == v, f"{name} changes the value")
    E.check(isinstance(x, cls), "wrong class")
    E.reach("accept")
    if bits % 8:
        E.check(E.raises(TypeError, x.serialize), f"{name} is not byte aligned but serializes")
    else:
        n = bits // 8
        s = x.serialize()
        ref = (be if big else le)(E, v, n, signed)
        E.check(len(s) == n, f"{name} serializes to {len(s)} bytes")
        E.check(s == ref, f"{name} does not serialize to its two's complement bytes")
        E.observe("s", s)
        tail = E.bytes_upto("tail", 0, 2)
        y, rest = cls.deserialize(s + tail)
        E.check(isinstance(y, cls), "wrong class")
        E.check(y == v, f"{name} does not read back what it wrote")
        E.check(rest == tail, f"{name} consumes other data")
    b = x.bits()
    E.check(len(b) == bits, "bit count")
    for i in range(bits):
        E.check(b[i] == ((v >> (bits - 1 - i)) & 1), f"{name}.bits()[{i}]")
    z, left = cls.from_bits(Bits([1, 0, *b]))
    E.check(z == v, f"{name}.from_bits(bits()) differs")
    E.check(list(left) == [1, 0], f"{name}.from_bits consumes other bits")
    E.reach("bits")


def decode(E, names):
    name = E.pick("type", names)
    bits, signed, big = TYPES[name]
    cls = getattr(t, name)
    n = bits // 8
    data = E.bytes_upto("data", 0, n + 2)
    try:
        x, rest = cls.deserialize(data)
    except ValueError:
        E.check(len(data) < n, f"{name} rejects enough data")
        E.reach("short")
        return
    E.check(len(data) >= n, f"{name} accepts short data")
    E.check(isinstance(x, cls), "wrong class")
    part = data[:n]
    E.check(x == from_le(E, part[::-1] if big else part, signed), f"{name} decodes a wrong value")
    E.check(x.serialize() == part, f"{name} does not re-encode to the same bytes")
    E.check(rest == data[n:], f"{name} leaves the wrong remainder")
    E.observe("x", x)
    E.reach("decode")


def bits_codec(E):
    """Packing of bit lists into bytes, the base of sub-byte fields."""
    data = E.bytes_upto("data", 0, 4)
    b, rest = Bits.deserialize(data)
    E.check(len(b) == 8 * len(data), "bit count")
    E.check(b.serialize() == data, "bits do not re-encode to the same bytes")
    k = E.choice("k", 8)
    odd = Bits(list(b) + [1] * k)
    if k:
        E.check(E.raises(ValueError, odd.serialize), "a partial byte was serialized")
    E.reach("bits")


def units(tier):
    names = sorted(TYPES)
    aligned = [n for n in names if TYPES[n][0] % 8 == 0]
    out = [(f"construct/{c[0]}", construct, {"names": c}) for c in chunks(names, 4)]
    out += [(f"decode/{c[0]}", decode, {"names": c}) for c in chunks(aligned, 8)]
    out.append(("bits", bits_codec, {}))
    return out
