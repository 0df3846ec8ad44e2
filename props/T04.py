"""Floating point attribute values."""

import struct

import zigpy.types as t

BOUNDS = "every bit pattern of the 16, 32 and 64-bit formats; every 64-bit pattern written to each format"
OUTSIDE = "numeric value of subnormal numbers; NaN payloads"
ASSUMPTIONS = ["a Python float is its IEEE-754 double bit pattern"]
REACH = ["normal", "special", "short", "exact", "truncated"]

FMT = {"Half": (t.Half, 5, 10), "Single": (t.Single, 8, 23), "Double": (t.Double, 11, 52)}


def num(data):
    v = 0
    for i, b in enumerate(data):
        v = v | (b << (8 * i))
    return v


def dbits(x):
    return num(struct.pack("<d", x))


def decode(E, name):
    cls, eb, fb = FMT[name]
    n = (1 + eb + fb) // 8
    data = E.bytes_upto("data", n - 1, n + 1)
    try:
        x, rest = cls.deserialize(data)
    except ValueError:
        E.check(len(data) < n, "enough data refused")
        E.reach("short")
        return
    E.check(len(data) >= n, "short data accepted")
    E.check(rest == data[n:], "remainder")
    E.check(isinstance(x, cls), "class")
    pat = num(data[:n])
    sign, exp, frac = pat >> (eb + fb), (pat >> fb) & ((1 << eb) - 1), pat & ((1 << fb) - 1)
    d = dbits(x)
    E.check(d >> 63 == sign, "sign")
    top = (1 << eb) - 1
    if exp == top:
        E.check((d >> 52) & 0x7FF == 0x7FF, "infinity or NaN expected")
        E.check(E.any(E.all(frac == 0, d & ((1 << 52) - 1) == 0), E.all(frac != 0, d & ((1 << 52) - 1) != 0)), "infinity and NaN confused")
        E.reach("special")
    elif exp == 0:
        if frac == 0:
            E.check(d & ((1 << 63) - 1) == 0, "zero expected")
        E.reach("special")
    else:
        E.check((d >> 52) & 0x7FF == exp - ((1 << (eb - 1)) - 1) + 1023, "exponent")
        E.check(d & ((1 << 52) - 1) == frac << (52 - fb), "fraction")
        E.reach("normal")
    E.check(x.serialize() == data[:n], "does not re-encode to the same bytes")
    E.observe("d", d)


def encode(E, name):
    cls, eb, fb = FMT[name]
    n = (1 + eb + fb) // 8
    raw = E.bytes("raw", 8)
    d = num(raw)
    exp = (d >> 52) & 0x7FF
    x = cls(struct.unpack("<d", raw)[0])
    out = x.serialize()
    E.check(len(out) == n, "size")
    pat = num(out)
    E.check(pat >> (eb + fb) == d >> 63, "sign")
    bias = (1 << (eb - 1)) - 1
    oe, of = (pat >> fb) & ((1 << eb) - 1), pat & ((1 << fb) - 1)
    frac = d & ((1 << 52) - 1)
    if exp == 0x7FF:
        E.check(oe == (1 << eb) - 1, "infinity or NaN becomes finite")
        E.check(E.implies(frac == 0, of == 0), "infinity becomes NaN")
        E.reach("exact")
        return
    if E.any(E.all(exp == 0, frac == 0), False):
        E.check(E.all(oe == 0, of == 0), "zero")
        E.reach("exact")
        return
    E.assume(exp > 0)
    want = exp - 1023 + bias
    E.check(oe == E.ite(want < 1, 1, E.ite(want > (1 << eb) - 2, (1 << eb) - 2, want)), "exponent")
    E.check(of == frac >> (52 - fb), "fraction is not the leading bits")
    E.reach("truncated")


def units(tier):
    return [(f"decode/{k}", decode, {"name": k}) for k in FMT] + [(f"encode/{k}", encode, {"name": k}) for k in FMT]
