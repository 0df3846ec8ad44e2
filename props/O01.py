"""Firmware files: images, containers and what is taken from them."""

import hashlib

import zigpy.ota.image as im
import zigpy.types as t
from props.common import chunks, from_le, le

BOUNDS = ("files of up to 90 bytes (256 for the container with hashes): any header with any optional fields, header length and image size; up to 20 bytes of elements with any tags and lengths, "
          "cut off anywhere or followed by up to 3 bytes; containers with any sizes and offsets up to the file's length")
OUTSIDE = "elements of more than 20 bytes; cryptographic hashes are arbitrary functions of the data"
ASSUMPTIONS = ["SHA-512 is an uninterpreted function"]
REACH = ["accepted", "refused", "elements", "rest", "hue", "legrand", "reality", "ikea", "fixed", "written", "mismatch"]

MAGIC = b"\x1e\xf1\xee\x0b"
FIELDS = [("header_version", 2), ("header_length", 2), ("field_control", 2), ("manufacturer_id", 2), ("image_type", 2), ("file_version", 4), ("stack_version", 2)]
OPTIONAL = [(1, "security_credential_version", 1), (2, "upgrade_file_destination", 8), (4, "minimum_hardware_version", 2), (4, "maximum_hardware_version", 2)]
HUE = 4107


def header(E, fc, length=None, size=None, manufacturer=None, magic=MAGIC):
    """(bytes, values, actual size)"""
    v = {n: E.bits(n, 8 * k) for n, k in FIELDS}
    v["field_control"] = fc | (E.bits("other", 13) << 3)
    v["image_size"] = E.bits("image_size", 32) if size is None else size
    v["header_string"] = E.bytes("string", 2) + b"\x00" * 30
    opts = [(n, k) for bit, n, k in OPTIONAL if fc & bit]
    actual = 56 + sum(k for _, k in opts)
    if length is not None:
        v["header_length"] = actual if length == "actual" else length
    if manufacturer is not None:
        v["manufacturer_id"] = manufacturer
    raw = magic
    for n, k in FIELDS:
        raw = raw + le(E, v[n], k)
    raw = raw + v["header_string"] + le(E, v["image_size"], 4)
    for n, k in opts:
        v[n] = E.bytes(n, 8) if k == 8 else E.bits(n, 8 * k)
        raw = raw + (v[n] if k == 8 else le(E, v[n], k))
    return raw, v, actual


def check_header(E, hdr, v, fc):
    for n, k in FIELDS + [("image_size", 4)]:
        E.check(getattr(hdr, n) == v[n], f"the header's {n} is the one in the file")
    E.check(bytes(hdr.header_string) == v["header_string"], "the header's text is the one in the file")
    for bit, n, k in OPTIONAL:
        x = getattr(hdr, n)
        if not fc & bit:
            E.check(x is None, "an optional field that is not announced is not there")
        elif k == 8:
            E.check(x.serialize() == v[n], f"the header's {n} is the one in the file")
        else:
            E.check(x == v[n], f"the header's {n} is the one in the file")


def elements(E, body):
    """[(tag, data)] or None"""
    r = []
    while len(body):
        if len(body) < 6:
            return None
        n = from_le(E, body[2:6])
        if not E.concrete(bool(n <= len(body) - 6)):
            return None
        n = E.concrete(n)
        r.append((from_le(E, body[:2]), body[6 : 6 + n]))
        body = body[6 + n :]
    return r


def expect(E, data, v, actual):
    """("hue", data, rest), ("zigbee", elements, rest) or None"""
    size = v["image_size"]
    fits = E.concrete(bool(E.all(size >= actual, size <= len(data))))
    if not fits:
        return None
    size = E.concrete(size)
    body = data[actual:size]
    if len(body) >= 3 and E.concrete(bool(E.all(v["manufacturer_id"] == HUE, body[0] == 0x2A, body[1] == 0, body[2] == 1))):
        return "hue", body, data[size:]
    if not E.concrete(bool(v["header_length"] == actual)):
        return None
    els = elements(E, body)
    return None if els is None else ("zigbee", els, data[size:])


def compare(E, got, exp, data, v, fc):
    image, rest = got
    E.check(rest == exp[2], "what follows the image is left over")
    check_header(E, image.header, v, fc)
    if exp[0] == "hue":
        E.check(type(image) is im.HueSBLOTAImage and image.data == exp[1], "the contents are those in the file")
        E.reach("hue")
    else:
        E.check(type(image) is im.OTAImage and len(image.subelements) == len(exp[1]), "the elements are those in the file")
        E.check(E.all(*[E.all(s.tag_id == tag, bytes(s.data) == d) for s, (tag, d) in zip(image.subelements, exp[1])]), "the elements are those in the file")
        if len(exp[1]) > 1:
            E.reach("elements")
    if len(rest):
        E.reach("rest")
    E.check(image.serialize() == data[: len(data) - len(exp[2])], "the image serializes to the bytes it was read from")


def image(E, fc, n, hue=False):
    """A file that is an image."""
    raw, v, actual = header(E, fc, manufacturer=HUE if hue else None)
    body = E.bytes("body", n)
    if hue:
        body = b"\x2a\x00" + le(E, E.bits("third", 8), 1) + body
    data = raw + body
    exp = expect(E, data, v, actual)
    got, exc = E.attempt(im.parse_ota_image, data)
    E.check((exc is None) == (exp is not None), "an image is read exactly if it is whole")
    if exc is not None:
        E.check(isinstance(exc, ValueError), "others are refused")
        E.reach("refused")
        return
    E.reach("accepted")
    compare(E, got, exp, data, v, fc)


def cut(E, fc):
    """A file that ends too early or does not start as it should."""
    raw, v, actual = header(E, fc, length="actual", size=80)
    data = raw + b"\x00\x00" + le(E, 80 - actual - 6, 4) + E.bytes("body", 80 - actual - 6)
    if E.bool("start"):
        i, x = E.choice("byte", 4), E.int("wrong", 1, 255)
        data = data[:i] + le(E, data[i] ^ x, 1) + data[i + 1 :]
    else:
        data = data[: E.choice("end", 80)]
    got, exc = E.attempt(im.parse_ota_image, data)
    E.check(isinstance(exc, ValueError), "a file that is not whole is refused")
    E.reach("refused")


def plain_file(E, fc, n, extra=0):
    """A correct image with one element of n bytes, and its values."""
    hl = {0: 56, 7: 69}[fc]
    raw, v, actual = header(E, fc, length="actual", size=hl + 6 + n, manufacturer=E.bits("manufacturer", 16))
    tag, content = E.bits("tag", 16), E.bytes("content", n)
    body = le(E, tag, 2) + le(E, n, 4) + content
    return raw, v, actual, body, tag, content


def legrand(E, fc):
    raw, v, actual, body, tag, content = plain_file(E, fc, 3)
    inner = raw + body
    d = E.int("delta", -2, 2)
    data = le(E, len(inner) + d, 4) + inner + E.bytes("suffix", 17)
    got, exc = E.attempt(im.parse_ota_image, data)
    if E.concrete(bool(d == 0)):
        E.check(exc is None, "the image is unwrapped")
        compare(E, got, ("zigbee", [(tag, content)], b""), inner, v, fc)
        E.reach("legrand")
    else:
        E.check(isinstance(exc, ValueError), "a wrapper of the wrong size is none")


def reality(E, fc):
    raw, v, actual, body, tag, content = plain_file(E, fc, 3)
    inner = raw + body
    pre = E.bytes("pre", 8) + b"\x00" * 76
    d = E.int("delta", -1, 1)
    total = 64 + 4 + 4 + 80 + len(inner)
    tail = le(E, E.bits("four", 32), 4) + le(E, total - 64 + d, 4) + pre[:80] + inner
    digest = hashlib.sha512(tail).digest()
    flip = E.bits("flip", 8)
    digest = le(E, digest[0] ^ flip, 1) + digest[1:]
    data = digest + tail
    E.assume(E.not_(data[:4] == MAGIC))
    E.assume(E.not_(data[:4] == b"NGIS"))
    E.assume(from_le(E, data[:4]) + 21 != len(data))
    got, exc = E.attempt(im.parse_ota_image, data)
    if E.concrete(bool(E.all(d == 0, flip == 0))):
        E.check(exc is None, "the image is unwrapped")
        compare(E, got, ("zigbee", [(tag, content)], b""), inner, v, fc)
        E.reach("reality")
    else:
        E.check(isinstance(exc, ValueError), "a wrapper that does not match its contents is none")


def ikea(E, fc, extra, count=1):
    """The image is where the container says; what it has too much belongs to its only element."""
    raw, v, actual, body, tag, content = plain_file(E, fc, 3)
    if count == 2:
        body = body + b"\x03\x00" + b"\x00" * 4
        v["image_size"] += 6
        raw = raw[:52] + le(E, v["image_size"], 4) + raw[56:]
    more = E.bytes("more", extra)
    inner = raw + body + more
    gap, after = E.choice("gap", 3), E.choice("after", 3)
    data = b"NGIS" + E.bytes("ids", 12) + le(E, 24 + gap, 4) + le(E, len(inner), 4) + b"\x55" * gap + inner + b"\x66" * after
    got, exc = E.attempt(im.parse_ota_image, data)
    ok = after > 0 and (extra == 0 or count == 1 and E.concrete(bool(tag == 0)))
    E.check((exc is None) == ok, "a container is unwrapped exactly if it is whole")
    if exc is not None:
        E.check(after or isinstance(exc, ValueError), "others are refused")
        return
    image, rest = got
    if extra:
        v = dict(v, image_size=v["image_size"] + extra)
        inner = raw[:52] + le(E, v["image_size"], 4) + raw[56:] + body[:2] + le(E, 3 + extra, 4) + body[6:] + more
        E.reach("fixed")
    compare(E, (image, rest), ("zigbee", [(tag, content + more)] + [(3, b"")] * (count - 1), b""), inner, v, fc)
    E.reach("ikea")


def ikea_any(E, sym):
    """Whatever sizes a container claims, it is refused or unwrapped to what it holds there."""
    raw, v, actual, body, tag, content = plain_file(E, 0, 1)
    inner = raw + body
    offset, size = E.bits("offset", 32) if "offset" in sym else 24, E.bits("size", 32) if "size" in sym else len(inner)
    pad = E.choice("pad", 2)
    data = b"NGIS" + b"\x00" * 12 + le(E, offset, 4) + le(E, size, 4) + inner + b"\x77" * pad
    good = E.concrete(bool(E.all(offset == 24, size == len(inner)))) and pad == 1
    bad = E.concrete(bool(E.all(offset == 24, size == len(inner) + 1)))
    E.assume(not bad)
    got, exc = E.attempt(im.parse_ota_image, data)
    E.check((exc is None) == good, "only a container that holds an image where it says is unwrapped")
    E.check(exc is None or isinstance(exc, ValueError), "others are refused")


def short(E):
    n = E.choice("length", 25)
    got, exc = E.attempt(im.parse_ota_image, (b"NGIS" + E.bytes("data", 20))[:n] if n >= 4 else E.bytes("data", n))
    E.check(isinstance(exc, ValueError), "a file too short for any format is refused")


def write(E, fc):
    """Images made by hand are written only if their size is right."""
    raw, v, actual = header(E, fc, length="actual")
    hdr, rest = im.OTAImageHeader.deserialize(raw)
    E.check(rest == b"" and hdr.serialize() == raw, "a header is written as it was read")
    n = E.choice("n", 3)
    els = [(E.bits(f"tag{i}", 16), E.bytes_upto(f"data{i}", 0, 2)) for i in range(n)]
    img = im.OTAImage(header=hdr, subelements=[im.SubElement(tag_id=tag, data=d) for tag, d in els])
    total = actual + sum(6 + len(d) for _, d in els)
    out, exc = E.attempt(img.serialize)
    if E.concrete(bool(v["image_size"] == total)):
        E.check(exc is None, "an image whose size is right is written")
        want = raw
        for tag, d in els:
            want = want + le(E, tag, 2) + le(E, len(d), 4) + d
        E.check(out == want, "with its header and elements")
        E.reach("written")
    else:
        E.check(isinstance(exc, ValueError), "an image whose size is wrong is not written")
        E.reach("mismatch")


def units(tier):
    for fc in (0, 7) if tier == "quick" else range(8):
        for n in (0, 5, 6, 8, 13) if tier == "quick" else (0, 1, 5, 6, 7, 8, 12, 13, 20):
            yield f"image-{fc}-{n}", image, dict(fc=fc, n=n)
        yield f"hue-{fc}", image, dict(fc=fc, n=5, hue=True)
    for fc in (0, 7):
        yield f"cut-{fc}", cut, dict(fc=fc)
        yield f"legrand-{fc}", legrand, dict(fc=fc)
        yield f"reality-{fc}", reality, dict(fc=fc)
        for extra in (0, 1, 3):
            yield f"ikea-{fc}-{extra}", ikea, dict(fc=fc, extra=extra)
        yield f"ikea-two-{fc}", ikea, dict(fc=fc, extra=1, count=2)
    for sym in ("offset", "size") if tier == "quick" else ("offset+size",):
        yield f"ikea-any-{sym}", ikea_any, dict(sym=sym)
    yield "short", short, {}
    for fc in range(8):
        yield f"write-{fc}", write, dict(fc=fc)
