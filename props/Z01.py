"""Cluster library frame headers."""

import zigpy.types as t
from zigpy.zcl import foundation as f

BOUNDS = "every header byte string up to 6 bytes, every combination of header fields"
OUTSIDE = ""
REACH = ["decoded", "refused", "built", "set", "manufacturer", "plain"]


def decode(E):
    data = E.bytes_upto("data", 0, 6)
    try:
        h, rest = f.ZCLHeader.deserialize(data)
    except ValueError:
        if len(data) >= 3:
            E.check(E.all(len(data) < 5, (data[0] & 4) != 0), "a complete header is refused")
        E.reach("refused")
        return
    fc = data[0]
    manuf = (fc & 4) != 0
    n = 5 if manuf else 3
    E.check(len(data) >= n, "an incomplete header is accepted")
    E.check(rest == data[n:], "the payload starts right after the header")
    c = h.frame_control
    E.check(E.all(c.frame_type == (fc & 3), c.is_manufacturer_specific == ((fc >> 2) & 1), c.direction == ((fc >> 3) & 1),
                  c.disable_default_response == ((fc >> 4) & 1), c.reserved == (fc >> 5)), "frame control bits")
    E.check(E.all(h.direction == ((fc >> 3) & 1), c.is_cluster == ((fc & 3) == 1), c.is_general == ((fc & 3) == 0)), "derived flags")
    if manuf:
        E.check(h.manufacturer == (data[1] | (data[2] << 8)), "manufacturer code")
        E.reach("manufacturer")
    else:
        E.check(h.manufacturer is None, "a manufacturer code appears out of nowhere")
        E.reach("plain")
    E.check(E.all(h.tsn == data[n - 2], h.command_id == data[n - 1]), "sequence number and command")
    E.check(h.serialize() == data[:n], "a header does not write back what was read")
    E.reach("decoded")


def manuf(E):
    k = E.choice("manufacturer", 3)
    if k == 0:
        return None, None
    if k == 1:
        return f.ZCLHeader.NO_MANUFACTURER_ID, None
    m = E.bits("m", 16)
    return m, m


def ref(ftype, m, direction, ddr, tsn, cmd):
    fc = ftype | (direction << 3) | (ddr << 4)
    if m is None:
        return bytes([fc, tsn, cmd])
    return bytes([fc | 4, m & 0xFF, m >> 8, tsn, cmd])


def built(E):
    tsn, cmd = E.bits("tsn", 8), E.bits("cmd", 8)
    arg, m = manuf(E)
    d = f.Direction(E.choice("direction", 2))
    kind = E.choice("kind", 3)
    if kind < 2:
        h = (f.ZCLHeader.general, f.ZCLHeader.cluster)[kind](tsn, cmd, arg, d)
        want = ref(kind, m, d, d, tsn, cmd)  # answers ask for no default response
    else:
        ddr, ft = E.bits("ddr", 1), E.bits("ftype", 2)
        fc = f.FrameControl(frame_type=ft, is_manufacturer_specific=(m is not None), direction=d, disable_default_response=ddr, reserved=0)
        h = f.ZCLHeader(frame_control=fc, manufacturer=arg, tsn=tsn, command_id=cmd)
        want = ref(ft, m, d, ddr, tsn, cmd)
    E.check(h.serialize() == want, "header bytes")
    E.check(h.manufacturer == m if m is not None else h.manufacturer is None, "manufacturer")
    E.reach("built")


def setter(E):
    tsn, cmd = E.bits("tsn", 8), E.bits("cmd", 8)
    arg0, m0 = manuf(E)
    h = f.ZCLHeader.cluster(tsn, cmd, arg0)
    arg, m = manuf(E)
    h.manufacturer = arg
    E.check(h.serialize() == ref(1, m, 0, 0, tsn, cmd), "changing the manufacturer code keeps the header consistent")
    y, rest = f.ZCLHeader.deserialize(h.serialize() + b"\x01\x02")
    E.check(E.all(rest == b"\x01\x02", y.manufacturer == m if m is not None else y.manufacturer is None, y.tsn == tsn, y.command_id == cmd), "reads back")
    E.reach("set")


def units(tier):
    return [("decode", decode, {}), ("built", built, {}), ("setter", setter, {})]
