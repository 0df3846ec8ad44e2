"""Addresses, keys, channel masks and install codes."""

import zigpy.types as t
import zigpy.util as util

BOUNDS = ("every 64-bit address, 128-bit key, 16-bit address and their text forms in all delimiter and case styles listed; channel "
          "masks with any undefined bits and any 4 adjacent channels varying; channel lists of up to 2 integers between -1 and 60; install codes of every length 0..20 and hash inputs of every length 0..40 bytes")
OUTSIDE = "the AES block cipher and the CRC-16/X-25 routine themselves (third-party): any outputs are allowed for them"
ASSUMPTIONS = ["AES and CRC-X25 are replaced by stubs that return arbitrary values and record their inputs"]
REACH = ["eui", "key", "nwk", "bad", "mask", "list", "addr", "hash", "code-ok", "code-bad", "code-len"]

HEX = "0123456789abcdef"


def hexpair(b, upper=False):
    s = f"{b:02x}"
    return s.upper() if upper else s


def styles(E, bs):
    """Some ways people write a byte sequence."""
    k = E.choice("style", 4)
    up = E.bool("upper")
    parts = [hexpair(b) for b in bs]
    s = [":".join(parts), "".join(parts), " ".join(parts), " " + ":".join(parts) + "\n"][k]
    return s.upper() if up else s


def eui(E, cls):
    bs = E.bytes("bs", 8)
    x = cls(list(bs))
    E.check(x.serialize() == bs, "the wire form is least significant byte first")
    s = styles(E, [bs[i] for i in range(7, -1, -1)])
    y = cls.convert(s)
    E.check(E.all(y == x, isinstance(y, cls)), "text is most significant byte first")
    E.check(repr(x) == ":".join([hexpair(bs[i]) for i in range(7, -1, -1)]), "shown form")
    E.check(cls.convert(repr(x)) == x, "shown form does not read back")
    E.check(hash(x) == hash(y), "equal addresses hash differently")
    z, rest = cls.deserialize(bs + b"\x01")
    E.check(E.all(z == x, rest == b"\x01"), "wire form does not read back")
    E.reach("eui")


def eui_order(E):
    a, b = E.bytes("a", 8), E.bytes("b", 8)
    x, y = t.EUI64(list(a)), t.EUI64(list(b))
    E.check((x == y) == (a == b), "two addresses are equal only when all their bytes are")
    E.check((repr(x) == repr(y)) == (a == b), "two addresses look alike only when equal")


def key(E):
    bs = E.bytes("bs", 16)
    x = t.KeyData(list(bs))
    E.check(x.serialize() == bs, "wire form")
    y = t.KeyData.convert(styles(E, bs))
    E.check(y == x, "text form")
    E.check(repr(x) == ":".join([hexpair(b) for b in bs]), "shown form")
    E.check(t.KeyData.convert(repr(x)) == x, "shown form does not read back")
    E.reach("key")


def nwk(E, cls):
    v = E.bits("v", 16)
    s = f"{v:04x}"
    if E.bool("upper"):
        s = s.upper()
    x = cls.convert(s)
    E.check(E.all(x == v, isinstance(x, cls)), "text is most significant digit first")
    E.check(repr(cls(v)) == f"0x{v:04X}", "shown form")
    E.check(cls.convert(repr(cls(v))[2:]) == v, "shown form does not read back")
    E.reach("nwk")


def bad(E, cls, n):
    """Wrong number of bytes, or characters that are not hexadecimal digits."""
    digits = [HEX[E.choice("d", 16)] if False else f"{E.bits('d', 4):x}" for _ in range(2 * n)]
    size = cls._length
    if n == size:
        k = E.choice("pos", 2 * n)
        c = E.int("c", 0x21, 0x7E)
        E.assume(E.not_(E.any(E.all(c >= 48, c <= 57), E.all(c >= 65, c <= 70), E.all(c >= 97, c <= 102), c == 58)))
        digits[k] = chr(c)
    E.check(E.raises((ValueError, AssertionError), cls.convert, "".join(digits)), "a text that is no such value is accepted")
    E.reach("bad")


def mask(E):
    w = E.choice("window", 13)
    m = (E.bits("mask", 4) << (11 + w)) | (E.bits("low", 11) | (E.bits("high", 5) << 27)) | [0, 0x07FFF800 & ~(0xF << (11 + w))][E.choice("rest", 2)]
    x = t.Channels(m)
    extra = (m & ~0x07FFF800) != 0
    try:
        chans = list(x)
    except ValueError:
        E.check(extra, "a valid mask cannot be listed")
        return
    E.check(E.not_(extra), "a mask with undefined bits is listed as if they were not there")
    for c in range(11, 27):
        E.check(((m >> c) & 1 == 1) == (c in chans), "membership")
    E.check(chans == sorted(chans), "channels are listed in order")
    E.check(t.Channels.from_channel_list(chans) == m, "the list does not give the mask back")
    E.reach("mask")


def chan_list(E):
    n = E.choice("n", 3)
    cs = [E.int("c", -1, 60) for _ in range(n)]
    ok = E.all(*[E.all(c >= 11, c <= 26) for c in cs])
    try:
        m = t.Channels.from_channel_list(cs)
    except ValueError:
        E.check(E.not_(ok), "valid channels refused")
        return
    E.check(ok, "a channel outside of 11..26 is accepted")
    ref = 0
    for c in cs:
        ref = ref | (1 << c)
    E.check(m + 0 == ref, "wrong mask")
    E.reach("list")


def addr(E):
    mode = E.pick("mode", [t.AddrMode.NWK, t.AddrMode.Group, t.AddrMode.Broadcast, t.AddrMode.IEEE])
    if mode == t.AddrMode.IEEE:
        bs = E.bytes("ieee", 8)
        a = t.AddrModeAddress(mode, t.EUI64(list(bs)))
        b = t.AddrModeAddress(mode, list(bs))
        E.check(E.all(isinstance(b.address, t.EUI64), a == b, a.address.serialize() == bs), "IEEE address")
    else:
        v, w = E.bits("v", 16), E.bits("w", 16)
        typ = {t.AddrMode.NWK: t.NWK, t.AddrMode.Group: t.Group, t.AddrMode.Broadcast: t.BroadcastAddress}[mode]
        a = t.AddrModeAddress(addr_mode=mode, address=v)
        E.check(E.all(isinstance(a.address, typ), a.address == v), "address type")
        E.check((a == t.AddrModeAddress(mode, w)) == (v == w), "equality")
        other = t.AddrModeAddress(t.AddrMode.Group if mode == t.AddrMode.NWK else t.AddrMode.NWK, v)
        E.check(a != other, "addresses of different modes are equal")
    E.reach("addr")


class Aes:
    """Stands in for the block cipher: any function of (key, block)."""

    def __init__(self, E):
        self.E, self.calls = E, []

    def install(self):
        me, E = self, self.E

        class Alg:
            block_size = 128

            def __init__(self, k):
                self.key = k

        class Ciph:
            def __init__(self, alg, mode):
                self.alg = alg

            def encryptor(self):
                return self

            def update(self, block):
                out = E.bytes("aes", len(block))
                me.calls.append((self.alg.key, block, out))
                return out

            def finalize(self):
                return b""

        E.patch(util, "AES", Alg)
        E.patch(util, "ECB", lambda: None)
        E.patch(util, "Cipher", Ciph)


def padded(data):
    """Message padding of the Matyas-Meyer-Oseas hash in the Zigbee specification (B.6)."""
    out = bytes([b for b in data]) + b"\x80"
    while len(out) % 16 != 14:
        out += b"\x00"
    bits = 8 * len(data)
    return out + bytes([bits >> 8, bits & 0xFF])


def check_mmo(E, aes, data, res):
    msg = padded(data)
    blocks = [msg[i : i + 16] for i in range(0, len(msg), 16)]
    E.check(len(aes.calls) == len(blocks), "number of cipher calls")
    h = b"\x00" * 16
    for blk, (k, b, out) in zip(blocks, aes.calls):
        E.check(bytes(k) == h, "cipher key is not the previous hash value")
        E.check(bytes(b) == blk, "cipher input is not the padded message block")
        h = bytes([o ^ m for o, m in zip(out, blk)])
    E.check(E.all(isinstance(res, t.KeyData), res.serialize() == h), "the key is not the hash")


def mmo(E, n):
    aes = Aes(E)
    aes.install()
    data = E.bytes("data", n)
    check_mmo(E, aes, data, util.aes_mmo_hash(data))
    E.reach("hash")


def install_code(E, n):
    aes = Aes(E)
    aes.install()
    seen = []
    crc = E.bytes("crc", 2)

    class Crc:
        def process(self, d):
            seen.append(d)

        def finalbytes(self, byteorder="big"):
            return crc if byteorder == "little" else crc[::-1]

    E.patch(util, "CrcX25", Crc)
    code = E.bytes("code", n)
    res = util.convert_install_code(code)
    if n not in (8, 10, 14, 18):
        E.check(res is None, "an install code of this length does not exist")
        E.reach("code-len")
        return
    E.check(len(seen) == 1 and seen[0] == code[:-2], "the checksum covers the code without its last two bytes")
    good = code[-2:] == crc
    if res is None:
        E.check(E.not_(good), "a code with a correct checksum is refused")
        E.reach("code-bad")
        return
    E.check(good, "a code with a wrong checksum is accepted")
    check_mmo(E, aes, code, res)
    E.reach("code-ok")


def units(tier):
    out = [("eui", eui, {"cls": t.EUI64}), ("epid", eui, {"cls": t.ExtendedPanId}), ("order", eui_order, {}), ("key", key, {}),
           ("nwk", nwk, {"cls": t.NWK}), ("panid", nwk, {"cls": t.PanId}), ("mask", mask, {}), ("list", chan_list, {}), ("addr", addr, {})]
    for n in (7, 8, 9):
        out.append((f"bad/eui{n}", bad, {"cls": t.EUI64, "n": n}))
    for n in (15, 16, 17):
        out.append((f"bad/key{n}", bad, {"cls": t.KeyData, "n": n}))
    for n in range(0, 41):
        out.append((f"mmo/{n}", mmo, {"n": n}))
    for n in range(0, 21):
        out.append((f"code/{n}", install_code, {"n": n}))
    return out
