"""Length-prefixed strings, octet strings and lists."""

import zigpy.types as t

BOUNDS = ("texts of up to 3 arbitrary Unicode characters without NUL (every code point), alone and behind fillers that put the total at "
          "the 1- and 2-byte length limits; arbitrary buffers of up to 5 bytes and buffers whose length prefix is arbitrary and "
          "whose body sits around 253..257 and 65534..65536 bytes; lists of up to 4 items, arbitrary buffers of up to 6 bytes")
OUTSIDE = "texts containing NUL (cut at the NUL when read, by design); more than 3 non-filler characters"
ASSUMPTIONS = ["UTF-8 coding is modelled after CPython's codec, replacement handling included"]
REACH = ["kinds", "text", "text-long", "decode", "invalid", "short", "octets", "list", "limited"]

STRS = {"char": (t.CharacterString, 1), "long": (t.LongCharacterString, 2)}
OCTS = {"octet": (t.LVBytes, 1), "longoctet": (t.LongOctetString, 2), "size2": (t.LVBytesSize2, 1)}


def text(E, n):
    cps = []
    for _ in range(n):
        c = E.int("cp", 1, 0x10FFFF)
        E.assume(E.any(c < 0xD800, c > 0xDFFF))
        cps.append(chr(c))
    return "".join(cps)


def encode(E, kind, fill):
    cls, p = STRS[kind]
    s = "a" * fill + text(E, E.choice("n", 4 if not fill else 3))
    raw = s.encode("utf-8")
    x = cls(s)
    E.check(E.all(x == s, isinstance(x, cls)), "text changed")
    try:
        data = x.serialize()
    except ValueError:
        E.check(len(raw) >= (1 << (8 * p)) - 1, "a text that fits was refused")
        E.reach("text-long")
        return
    E.check(len(raw) < (1 << (8 * p)) - 1, "a text that cannot be represented was written")
    E.check(data[:p] == len(raw).to_bytes(p, "little"), "length prefix is not the number of octets")
    E.check(data[p:] == raw, "body is not the UTF-8 text")
    tail = E.bytes_upto("tail", 0, 2)
    y, rest = cls.deserialize(data + tail)
    E.check(y == s, "the text read back differs")
    E.check(rest == tail, "reading consumed other data")
    E.check(not y.invalid, "marked invalid")
    E.observe("data", data)
    E.reach("text")


def decode(E, kind, lo, hi, fill):
    cls, p = STRS[kind]
    data = E.bytes_upto("data", lo, hi) + b"x" * fill
    try:
        x, rest = cls.deserialize(data)
    except ValueError:
        E.check(E.any(len(data) < p, (len(data) - p) < sum([b << (8 * i) for i, b in enumerate(data[:p])])), "enough data was refused")
        E.reach("short")
        return
    E.check(len(data) >= p, "no room for the prefix")
    n = sum([b << (8 * i) for i, b in enumerate(data[:p])])
    if n == (1 << (8 * p)) - 1:
        E.check(x.invalid, "the invalid marker was not recognised")
        E.check(rest == data[p:], "the invalid marker has no body")
        E.check(x.serialize() == data[:p], "the invalid marker does not survive re-encoding")
        E.reach("invalid")
        return
    E.check(not x.invalid, "a valid string is marked invalid")
    n = E.concrete(n)
    E.check(len(data) >= p + n, "short data accepted")
    E.check(x.raw == data[p : p + n], "raw bytes lost")
    E.check(rest == data[p + n :], "wrong remainder")
    body = data[p : p + n]
    if fill == 0:
        cut = n
        for i in range(n):
            if body[i] == 0:
                cut = i
                break
        E.check(x == body[:cut].decode("utf-8", errors="replace"), "wrong text")
    E.reach("decode")


def invalid_roundtrip(E, kind):
    cls, p = STRS[kind]
    x = cls("", invalid=True)
    data = x.serialize()
    E.check(data == b"\xff" * p, "invalid marker")
    tail = E.bytes_upto("tail", 0, 3)
    y, rest = cls.deserialize(data + tail)
    E.check(E.all(y.invalid, rest == tail, y == ""), "invalid marker does not read back")
    E.reach("invalid")


def octets(E, kind, fill):
    cls, p = OCTS[kind]
    body = E.bytes_upto("body", 0, 4 if not fill else 3) + b"\x00" * fill
    x = cls(body)
    E.check(x == body, "changed")
    fits = len(body) < (1 << (8 * p)) - 1 and (kind != "size2" or len(body) == 2)
    try:
        data = x.serialize()
    except ValueError:
        E.check(not fits, "octets that fit were refused")
        E.reach("text-long")
        return
    E.check(fits, "octets that do not fit were written")
    E.check(data == len(body).to_bytes(p, "little") + body, "wrong encoding")
    tail = E.bytes_upto("tail", 0, 2)
    y, rest = cls.deserialize(data + tail)
    E.check(E.all(y == body, rest == tail), "does not read back")
    E.reach("octets")


def octets_decode(E, kind, lo, hi, fill):
    cls, p = OCTS[kind]
    data = E.bytes_upto("data", lo, hi) + b"x" * fill
    n = sum([b << (8 * i) for i, b in enumerate(data[:p])])
    try:
        x, rest = cls.deserialize(data)
    except ValueError:
        E.check(E.any(len(data) < p, len(data) - p < n, (n != 2) if kind == "size2" else False), "enough data was refused")
        E.reach("short")
        return
    E.check(E.all(len(data) >= p, len(data) - p >= n), "short data accepted")
    n = E.concrete(n)
    E.check(kind != "size2" or n == 2, "size")
    E.check(E.all(x == data[p : p + n], rest == data[p + n :]), "wrong split")
    E.reach("octets")


def limited(E, maxlen):
    n = E.choice("n", maxlen + 3)
    body = E.bytes("b", n)
    x = t.LimitedLVBytes(maxlen)(body)
    E.check(E.raises(ValueError, x.serialize) == (n > maxlen), "octet limit")
    s = t.LimitedCharString(maxlen)("".join([chr(E.int("c", 1, 127)) for _ in range(n)]))
    E.check(E.raises(ValueError, s.serialize) == (n > maxlen), "character limit")
    E.reach("limited")


LISTS = {
    "lv8": (t.LVList[t.uint16_t], t.uint16_t, 1), "lv16": (t.LVList[t.uint8_t, t.uint16_t], t.uint8_t, 2),
    "list": (t.List[t.uint16_t], t.uint16_t, 0), "fixed": (t.FixedList[t.uint16_t, 3], t.uint16_t, None),
    "nested": (t.LVList[t.LVBytes], t.LVBytes, 1),
}


def list_encode(E, kind):
    cls, item, p = LISTS[kind]
    n = E.choice("n", 5)
    if kind == "nested":
        items = [t.LVBytes(E.bytes_upto("it", 0, 1)) for _ in range(min(n, 2))]
    else:
        items = [item(E.bits("it", item._bits)) for _ in range(n)]
    x = cls(items)
    if kind == "fixed" and n != 3:
        E.check(E.raises(ValueError, x.serialize), "a fixed list of the wrong length was written")
        E.reach("short")
        return
    data = x.serialize()
    ref = b"".join([i.serialize() for i in items])
    if p:
        ref = len(items).to_bytes(p, "little") + ref
    E.check(data == ref, "wrong encoding")
    tail = E.bytes_upto("tail", 0, 2) if kind != "list" else b""
    y, rest = cls.deserialize(data + tail)
    E.check(isinstance(y, cls), "class")
    E.check(len(y) == len(items), "length")
    for a, b in zip(y, items):
        E.check(a == b, "item")
    E.check(rest == tail, "remainder")
    E.reach("list")


def kinds(E):
    """A list knows which lists it is one of: those with the same items and length field."""
    names = {"lv8": {"items": t.uint16_t}, "lv16": {"items": t.uint8_t}, "list": {"items": t.uint16_t}, "fixed": {"items": t.uint16_t}}
    a, b = E.pick("a", list(names)), E.pick("b", list(names))
    base = {"lv8": t.LVList, "lv16": t.LVList, "list": t.List, "fixed": t.FixedList}
    ca, cb = LISTS[a][0], LISTS[b][0]
    x = ca([names[a]["items"](E.bits("item", 8))] * 3)

    class Named(base[a], item_type=names[a]["items"], **({"length_type": t.uint16_t} if a == "lv16" else {"length": 3} if a == "fixed" else {})):
        pass

    y = Named(x)
    for v in (x, y):
        E.check(isinstance(v, cb) == (a == b) and isinstance(v, base[a]) and isinstance(v, list), "the kind of a list")
    E.check(issubclass(Named, cb) == (a == b) and not isinstance([1], ca) and not issubclass(list, ca), "the kinds of lists")
    E.check(not isinstance(x, Named) and isinstance(y, Named), "a named kind of list")
    E.check(y.serialize() == x.serialize(), "written alike")
    E.check((ca is t.LVList[t.uint16_t, t.uint8_t]) == (a == "lv8"), "the same kind of list is the same class")
    E.check(not issubclass(Named, (t.LVList[t.uint32_t], t.LVList[t.uint16_t, t.uint32_t], t.List[t.uint8_t], t.FixedList[t.uint16_t, 4])), "others")
    E.reach("kinds")


def list_decode(E, kind):
    cls, item, p = LISTS[kind]
    data = E.bytes_upto("data", 0, 6)
    if kind == "nested":
        if len(data) > 0:
            E.assume(data[0] <= 4)
    try:
        x, rest = cls.deserialize(data)
    except ValueError:
        if kind == "fixed":
            E.check(len(data) < 6, "enough data refused")
        elif kind == "list":
            E.check(len(data) % 2 == 1, "whole items refused")
        elif kind != "nested":
            n = sum([b << (8 * i) for i, b in enumerate(data[:p])])
            E.check(E.any(len(data) < p, n * (item._bits // 8) > len(data) - p), "enough data refused")
        E.reach("short")
        return
    if kind != "nested":
        size = item._bits // 8
        head = data[: p or 0]
        if p:
            E.check(sum([b << (8 * i) for i, b in enumerate(head)]) == len(x), "item count")
        end = (p or 0) + size * len(x)
        for i in range(len(x)):
            E.check(x[i].serialize() == data[(p or 0) + i * size : (p or 0) + (i + 1) * size], "item")
        E.check(rest == data[end:], "remainder")
    E.check(x.serialize() + rest == data, "re-encoding differs from the input")
    E.reach("list")


def optional(E):
    cls = t.Optional(t.uint16_t)
    data = E.bytes_upto("data", 0, 4)
    x, rest = cls.deserialize(data)
    if len(data) < 2:
        E.check(x is None, "absent optional")
        E.check(rest == b"", "rest")
    else:
        E.check(x.serialize() == data[:2], "value")
        E.check(rest == data[2:], "rest")
    E.reach("list")


def units(tier):
    out = []
    for k, (_, p) in STRS.items():
        out.append((f"encode/{k}", encode, {"kind": k, "fill": 0}))
        for f in ((250, 252, 253, 254) if p == 1 else (253, 65532, 65534)):
            out.append((f"encode/{k}/{f}", encode, {"kind": k, "fill": f}))
        out.append((f"decode/{k}", decode, {"kind": k, "lo": 0, "hi": p + (3 if tier == "quick" else 4), "fill": 0}))
        for f in (253, 255, 256):
            out.append((f"decode/{k}/{f}", decode, {"kind": k, "lo": p, "hi": p, "fill": f}))
        out.append((f"invalid/{k}", invalid_roundtrip, {"kind": k}))
    for k, (_, p) in OCTS.items():
        for f in (0, 250, 253) + ((65531, 65533) if p == 2 else ()):
            out.append((f"octets/{k}/{f}", octets, {"kind": k, "fill": f}))
        out.append((f"octets-decode/{k}", octets_decode, {"kind": k, "lo": 0, "hi": 5, "fill": 0}))
        out.append((f"octets-decode/{k}/255", octets_decode, {"kind": k, "lo": p, "hi": p, "fill": 255}))
    out.append(("limited", limited, {"maxlen": 4}))
    for k in LISTS:
        out.append((f"list-encode/{k}", list_encode, {"kind": k}))
        out.append((f"list-decode/{k}", list_decode, {"kind": k}))
    out.append(("kinds", kinds, {}))
    out.append(("optional", optional, {}))
    return out
