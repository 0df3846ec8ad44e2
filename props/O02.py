"""Validation of the firmware contained in images."""

import zlib

import zigpy.ota.image as im
import zigpy.ota.validators as va
from props.common import le

BOUNDS = ("GBL firmware of up to 4 elements in up to 56 bytes with any tags, lengths, contents and checksum, cut off anywhere or followed by up to 4 bytes; EBL firmware of 128 to 256 bytes with any lengths in up to 3 elements, any padding; "
          "images with up to 3 elements of any kind")
OUTSIDE = "longer firmware"
REACH = ["valid", "crc", "cut", "padding", "size", "unknown", "not-image", "invalid-image", "valid-image", "mixed"]

GOOD = 0x2144DF1C
GBL, GBL_END = b"\xeb\x17\xa6\x03", b"\xfc\x04\x04\xfc"
EBL, EBL_END = b"\x00\x00\x00\x8c", b"\xfc\x04"


def crc_for(E, body):
    """The four bytes that make a firmware correct."""
    return le(E, zlib.crc32(body), 4)


def verdict(E, data):
    v, exc = E.attempt(va.validate_firmware, data)
    if exc is not None:
        E.check(isinstance(exc, va.ValidationError), "invalid firmware is reported as such")
        return "invalid"
    return v.name


def gbl(E, n, big=False):
    """One element with any length and contents, and the last one with any length."""
    first, last = (E.bits("first", 32), 4) if big else (E.choice("first", n + 9), E.choice("last", 10))
    tag = E.bytes("tag", 1)
    body = GBL + le(E, first, 4) + b"a" * n + tag + GBL_END[1:] + le(E, last, 4)
    delta = E.bits("delta", 8)
    crc = crc_for(E, body)
    data = body + le(E, crc[0] ^ delta, 1) + crc[1:]
    if big:
        E.assume(first > n + 8)
    data = data + E.bytes("after", E.choice("more", 3)) if E.bool("longer") else data[: len(data) - E.choice("less", 4)]
    # the reference
    off, exp = 0, None
    while exp is None:
        if len(data) - off < 8:
            exp = "invalid"
            break
        t, ln = data[off : off + 4], data[off + 4] | data[off + 5] << 8 | data[off + 6] << 16 | data[off + 7] << 24
        if not E.concrete(bool(ln <= len(data) - off - 8)):
            exp = "invalid"
            break
        off += 8 + E.concrete(ln)
        if E.concrete(bool(t == GBL_END)):
            exp = "VALID" if E.concrete(bool(zlib.crc32(data[:off]) == GOOD)) else "crc"
    got = verdict(E, data)
    if exp == "crc":
        E.reach("crc")
        exp = "invalid"
    elif exp == "invalid":
        E.reach("cut")
    else:
        E.reach("valid")
    E.check(got == exp, "GBL firmware is valid exactly if it is whole up to its last element and the checksum is right")


def ebl(E, extra, size):
    """Header, an element of any length, the last element and padding."""
    a, last, pad = E.bits("length", 16), E.choice("last", 6), E.bytes("pad", 1)
    head = EBL + b"\x12" * 140
    body = head + b"\xf8\x0a" + le(E, a, 2)[::-1] + b"\x34" * extra + EBL_END + le(E, last, 2)[::-1]
    crc = crc_for(E, body)
    delta = E.bits("delta", 8)
    body = body + le(E, crc[0] ^ delta, 1) + crc[1:]
    room = size - len(body)
    where = E.choice("where", 3)
    padding = [b"", pad, E.pick("short", [b"\xff" + pad, pad + b"\xff"])][room] if 0 <= room < 3 else b"\xff" * room if room < 0 else [pad + b"\xff" * (room - 1), b"\xff" * (room - 1) + pad, b"\xff" * (room // 2) + pad + b"\xff" * (room - room // 2 - 1)][where]
    data = body + padding
    off, exp = 0, None
    if len(data) % 64:
        exp = "size"
    while exp is None:
        if len(data) - off < 4:
            exp = "invalid"
            break
        t, ln = data[off : off + 2], data[off + 2] << 8 | data[off + 3]
        if not E.concrete(bool(ln <= len(data) - off - 4)):
            exp = "invalid"
            break
        off += 4 + E.concrete(ln)
        if E.concrete(bool(t == EBL_END)):
            rest = data[off:]
            if len(rest) and not E.concrete(bool(E.all(*[b == 0xFF for b in rest]))):
                exp = "padding"
            else:
                exp = "VALID" if E.concrete(bool(zlib.crc32(data[:off]) == GOOD)) else "crc"
    got = verdict(E, data)
    E.reach({"VALID": "valid", "invalid": "cut"}.get(exp, exp))
    E.check(got == ("VALID" if exp == "VALID" else "invalid"), "EBL firmware is valid exactly if it fills its blocks with elements, a right checksum and padding only")


def other(E):
    data = E.bytes_upto("data", 0, 12)
    n = len(data)
    is_gbl = n >= 4 and E.concrete(bool(data[:4] == GBL))
    is_ebl = n >= 4 and E.concrete(bool(data[:4] == EBL))
    got = verdict(E, data)
    if not (is_gbl or is_ebl):
        E.check(got == "UNKNOWN", "other firmware is of unknown validity")
        E.reach("unknown")
    elif not is_gbl:
        E.check(got == "invalid", "firmware that is cut off is invalid")


def images(E, n):
    """An image is invalid if any firmware in it is, valid if all are, and otherwise unknown."""
    good = GBL + b"\x00" * 4 + GBL_END + b"\x04\x00\x00\x00"
    good = good + crc_for(E, good)
    kinds = [E.pick(f"kind{i}", ["good", "bad", "other"]) for i in range(n)]
    tags = [E.bits(f"tag{i}", 16) for i in range(n)]
    data = {"good": good, "bad": good[:-1] + bytes([good[-1] ^ 1]), "other": b"other"}
    img = im.OTAImage(header=im.OTAImageHeader(), subelements=[im.SubElement(tag_id=t, data=data[k]) for t, k in zip(tags, kinds)])
    inside = [k for t, k in zip(tags, kinds) if E.concrete(bool(t == 0))]
    v, exc = E.attempt(va.validate_ota_image, img)
    if "bad" in inside:
        E.check(isinstance(exc, va.ValidationError), "an image with invalid firmware is invalid")
        E.reach("invalid-image")
    else:
        E.check(exc is None and v.name == ("VALID" if inside and "other" not in inside else "UNKNOWN"), "an image is valid if all its firmware is, unknown if some is unknown or there is none")
        E.reach("valid-image" if inside else "mixed")
    E.check(va.check_invalid(img) == ("bad" in inside), "only images with invalid firmware count as invalid")
    hue = im.HueSBLOTAImage(header=img.header, data=data["bad"])
    E.check(va.validate_ota_image(hue) == va.ValidationResult.UNKNOWN and va.check_invalid(hue) is False, "images of another format are of unknown validity")
    E.reach("not-image")


def units(tier):
    for n in (0, 1, 8, 16) if tier == "quick" else range(24):
        yield f"gbl-{n}", gbl, dict(n=n)
        yield f"gbl-big-{n}", gbl, dict(n=n, big=True)
    for extra, size in ((0, 192), (8, 192), (34, 192), (35, 192), (36, 192), (40, 192), (36, 200), (30, 256)) if tier == "quick" else [(e, s) for e in [*range(0, 60, 4), 34, 35] for s in (192, 200, 256)]:
        if 144 + 4 + extra + 4 + 4 <= size:
            yield f"ebl-{extra}-{size}", ebl, dict(extra=extra, size=size)
    yield "other", other, {}
    for n in range(3 if tier == "quick" else 4):
        yield f"images-{n}", images, dict(n=n)
