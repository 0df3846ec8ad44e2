"""Opening the network for joining, and finding devices."""

import asyncio
import warnings

import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from props.common import le

BOUNDS = ("any duration; the network, the coordinator, a known or an unknown device with an arbitrary address, given as an address or in 3 text forms; any status or 2 failures in answer; "
          "2 install codes and 4 invalid ones; lookups among 3 devices with arbitrary short addresses")
OUTSIDE = "a device that does not answer at all, which is reported as a timeout"
REACH = ["network", "broadcast_failed", "device", "own", "unknown", "delivery", "refused", "range", "text", "code", "bad_code", "lookup", "preferred", "missing", "dst"]


def make(E):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, nwk=0x1234)
    return loop, app, dev


def network(E):
    loop, app, dev = make(E)
    s = E.int("time", -3, 300)
    fails = E.bool("fails")
    if fails:
        app.fail = lambda p: zigpy.exceptions.DeliveryError("no")
    default = E.bool("default")
    task = loop.spawn(app.permit() if default else app.permit(s))
    E.check(task.done(), "done")
    if default:
        s = 60
    if E.concrete(bool(E.any(s < 0, s > 254))):
        E.check(isinstance(task.exception(), AssertionError) and app.sent == [] and app.calls == [], "durations that cannot be expressed are refused")
        E.reach("range")
        return
    E.check(len(app.sent) == 1, "one broadcast")
    p = app.sent[0]
    raw = p.data.serialize()
    E.check(E.all(p.dst.addr_mode == t.AddrMode.Broadcast, p.dst.address == 0xFFFC, p.cluster_id == 0x0036, p.profile_id == 0, p.src_ep == 0, p.dst_ep == 0), "all routers are told")
    E.check(raw[1:] == le(E, s, 1) + b"\x00", "for how long")
    if fails:
        E.check(isinstance(task.exception(), zigpy.exceptions.DeliveryError), "a failure is reported")
        E.reach("broadcast_failed")
        return
    E.check(task.exception() is None and len(app.calls) == 1 and app.calls[0][0] == "permit_ncp", "and so is the radio")
    E.check(app.calls[0][1] == s, "for as long")
    E.reach("network")


def device(E, who, form):
    loop, app, dev = make(E)
    s = E.int("time", 0, 254)
    if who == "unknown":
        ieee = t.EUI64.deserialize(E.bytes("ieee", 8))[0]
        E.assume(E.not_(E.any(*[E.all(*[a == b for a, b in zip(list(ieee), list(d))]) for d in app.devices])))
    else:
        ieee = world.NCP if who == "own" else dev.ieee
    node = {"eui": lambda: ieee, "text": lambda: str(ieee), "upper": lambda: str(ieee).upper(), "list": lambda: [int(x) if not E.symbolic else x for x in ieee]}[form]()
    if form != "eui":
        E.reach("text")
    how = E.pick("how", ["answer", "fails"]) if who == "device" else "answer"
    if how == "fails":
        app.fail = lambda p: zigpy.exceptions.DeliveryError("no")
    task = loop.spawn(app.permit(s, node=node))
    if who == "unknown":
        E.check(task.done() and task.exception() is None and app.sent == [] and app.calls == [], "nothing is opened for an unknown device")
        E.reach("unknown")
        return
    if who == "own":
        E.check(task.done() and task.exception() is None and app.sent == [] and len(app.calls) == 1 and app.calls[0][0] == "permit_ncp", "only the radio is opened")
        E.check(app.calls[0][1] == s, "for as long as asked")
        E.reach("own")
        return
    E.check(len(app.sent) == 1 and app.calls == [], "only the device is opened")
    p = app.sent[0]
    raw = p.data.serialize()
    E.check(E.all(p.dst.addr_mode == t.AddrMode.NWK, p.dst.address == dev.nwk, p.cluster_id == 0x0036, p.profile_id == 0, p.dst_ep == 0, raw[1] == s), "it is told for how long")
    if how == "fails":
        E.check(task.done() and task.exception() is None, "a device that cannot be reached is no failure")
        E.reach("delivery")
        return
    status = E.bits("status", 8)
    app.packet_received(world.packet(dev, raw[:1] + le(E, status, 1), cluster=0x8036, src_ep=0, dst_ep=0, profile=0))
    loop.drain()
    E.check(task.done() and task.exception() is None and app.calls == [] and len(app.sent) == 1, "nothing else is opened, whatever it answers")
    E.reach("device")
    if E.concrete(bool(status != 0)):
        E.reach("refused")


CODES = [("83FED3407A939723A5C639B26916D505C3B5", "66B6900981E1EE3CA4206B6B861C02BB"), ("83FED3407A939723A5C639FF4C12", None), ("83FED3407A939723A5C639B26916D505C3B6", None), ("", None),
         ("83FED3407A939723A5C639B26916D505", None)]


def code(E):
    loop, app, dev = make(E)
    text, exp = E.pick("code", CODES[:1] + CODES[2:])
    s = E.int("time", 0, 254)
    ieee = t.EUI64.deserialize(E.bytes("ieee", 8))[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        task = loop.spawn(app.permit_with_key(ieee, bytes.fromhex(text), s))
    E.check(task.done(), "done")
    if exp is None:
        E.check(isinstance(task.exception(), ValueError) and app.calls == [], "an invalid install code is refused")
        E.reach("bad_code")
        return
    E.check(task.exception() is None and len(app.calls) == 1 and app.calls[0][0] == "permit_with_link_key", "the radio is given a link key")
    _, node, key, got = app.calls[0]
    E.check(E.all(node == ieee, got == s, bytes(key.serialize()).hex().upper() == exp), "the device, the key made of the code, and how long")
    E.reach("code")


def lookup(E):
    """A device is found under its current short address, ourselves first."""
    loop, app, dev = make(E)
    other = world.add_device(app, ieee=world.IEEES[1])
    mine = t.NWK(E.bits("own", 16))
    app.state.node_info.nwk = mine
    devs = list(app.devices.values())
    for i, d in enumerate(devs):
        d.nwk = t.NWK(E.bits("nwk", 16))
    ask = E.bits("ask", 16)
    as_int = E.bool("as_int")
    got, exc = E.attempt(app.get_device, nwk=ask if as_int else t.NWK(ask), excs=KeyError)
    if exc is not None:
        E.check(E.all(ask != mine, *[d.nwk != ask for d in devs]), "only an unknown address is not found")
        E.reach("missing")
    elif got.ieee == world.NCP:
        E.check(E.any(ask == mine, got.nwk == ask), "that is our address")
        E.reach("preferred")
    else:
        E.check(got.nwk == ask, "the device has that address")
        E.check(ask != mine, "our own address is ours")
        E.reach("lookup")
    for d in devs:
        E.check(app.get_device(ieee=d.ieee) is d, "found by long address")
    E.check(E.raises((KeyError,), app.get_device, ieee=world.IEEES[3]), "an unknown address is not found")


def dst(E):
    """Where devices are told to send reports to."""
    loop, app, dev = make(E)
    low = E.bits("low", 8)
    ieee = t.EUI64.deserialize(le(E, low, 1) + b"\x66\x55\x44\x33\x22\x11\x0f")[0]
    app.state.node_info.ieee = ieee
    m = app.get_dst_address(dev.endpoints[1].in_clusters[6])
    E.check(m.serialize() == b"\x03" + ieee.serialize() + b"\x01", "our long address and first endpoint")
    E.reach("dst")


def units(tier):
    yield "network", network, {}
    for who in ("own", "device", "unknown"):
        for form in ("eui", "text", "upper", "list"):
            yield f"{who}-{form}", device, dict(who=who, form=form)
    yield "code", code, {}
    yield "lookup", lookup, {}
    yield "dst", dst, {}
