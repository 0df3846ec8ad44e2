"""Listeners waiting for frames get each matching frame, and only those."""

import zigpy.types as t
import zigpy.zcl.clusters.general as general
import zigpy.zdo.types as zdot
from props import world
from props.common import le
from zigpy.listeners import ANY_DEVICE
from zigpy.zcl import foundation as f

BOUNDS = ("up to 3 listeners of both kinds on one device, another device or any device, with schema or function filters on arbitrary field values; 3 frames "
          "(thorough 4) with arbitrary fields from two devices; listeners removed at any time")
OUTSIDE = "more listeners; filters with nested structures other than those of the library's commands"
REACH = ["future", "callback", "any", "device", "other_device", "not_matching", "second_future", "blocked", "removed", "async_callback", "raising", "reply", "zdo",
         "partial", "cancelled"]

ADD = general.Groups.ServerCommandDefs.add.schema
VIEW = general.Groups.ServerCommandDefs.view.schema
RSP = general.Groups.ClientCommandDefs.add_response.schema


def make(E):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    devs = [world.add_device(app, ieee=world.IEEES[i], nwk=0x1230 + i, ins=(0, 4, 6)) for i in range(2)]
    return loop, app, devs


class L:
    """A listener of the harness."""


def listen(E, app, devs, i, kind, src):
    """Register a listener; group numbers of filters are arbitrary."""
    l = L()
    l.src = ANY_DEVICE if src == 2 else devs[src]
    l.group = E.bits("filter", 16)
    l.future = kind != 2
    l.got = []
    if kind == 0:
        l.accept = lambda cmd, grp: cmd == 1 and grp == l.group
        l.filters = [VIEW(group_id=l.group)]
    elif kind == 1:
        # two alternatives, the first without any field
        l.accept = lambda cmd, grp: cmd == 0 or grp == l.group
        l.filters = [ADD(), lambda hdr, cmd: cmd.group_id == l.group]
        E.reach("partial")
    else:
        l.accept = lambda cmd, grp: grp == l.group
        l.filters = [lambda hdr, cmd: cmd.group_id == l.group]
    if l.future:
        l.cm = app.wait_for_response(l.src, l.filters)
        l.fut = l.cm.__enter__()
    else:
        l.cm = app.callback_for_response(l.src, l.filters, lambda hdr, cmd: l.got.append((hdr, cmd)))
        l.cm.__enter__()
    l.on, l.done, l.expect = True, None, []
    return l


def dispatch(E, kinds, srcs):
    loop, app, devs = make(E)
    rec = world.Rec("cluster_command")
    for d in devs:
        d.endpoints[1].in_clusters[4].add_listener(rec)
    ls = [listen(E, app, devs, i, k, s) for i, (k, s) in enumerate(zip(kinds, srcs))]
    n = (3 if len(kinds) == 2 else 2) + (E.tier != "quick")
    for step in range(n):
        if step == n - 1 and n > 1 and E.bool("remove"):
            l = ls[E.choice("which", len(ls))]
            l.cm.__exit__(None, None, None)
            l.on = False
            E.reach("removed")
        if step == 1 and ls[0].future and ls[0].done is None and E.bool("cancel"):
            ls[0].fut.cancel()
            ls[0].done = "cancelled"
            E.reach("cancelled")
        dev = E.choice("dev", 2)
        cmd = E.choice("cmd", 2)
        grp = E.bits("group", 16)
        payload = le(E, grp, 2) + (b"" if cmd else b"\x01a")
        app.packet_received(world.packet(devs[dev], world.zcl(0x11, step, cmd, payload), cluster=4))
        loop.drain()
        E.check(rec.count("cluster_command") == step + 1, "the cluster is told all the same")
        # any-device listeners first, then the device's, each in order of registration
        for l in [x for x in ls if x.src is ANY_DEVICE] + [x for x in ls if x.src is devs[dev]]:
            if not l.on:
                continue
            E.reach("any" if l.src is ANY_DEVICE else "device")
            if not l.accept(cmd, grp):
                E.reach("not_matching")
                continue
            if l.future:
                if l.done is None:
                    l.done = (step, cmd, grp)
                    E.reach("future")
                    if len([x for x in ls if x.future and x.on]) > 1:
                        E.reach("blocked")
                    break
                E.reach("second_future")
            else:
                l.expect.append((step, cmd, grp))
                E.reach("callback")
        for l in ls:
            if l.future:
                if l.done == "cancelled":
                    continue
                E.check(l.fut.done() == (l.done is not None), "the first matching frame, and no other, ends the wait")
                if l.done is not None:
                    hdr, c = l.fut.result()
                    E.check(E.all(hdr.tsn == l.done[0], hdr.command_id == l.done[1], c.group_id == l.done[2]), "the frame waited for")
            else:
                E.check(len(l.got) == len(l.expect), "each matching frame, and no other, is passed to the callback once")
                for (hdr, c), (s, cm, g) in zip(l.got, l.expect):
                    E.check(E.all(hdr.tsn == s, hdr.command_id == cm, c.group_id == g), "the frame passed to the callback")
        if dev == 1 and any(l.src is devs[0] for l in ls):
            E.reach("other_device")
    for l in ls:
        if l.on:
            l.cm.__exit__(None, None, None)
    E.check(not any(app._req_listeners.values()), "listeners left behind")


def callbacks(E):
    """Failing and asynchronous callbacks."""
    loop, app, devs = make(E)
    got = []
    kind = E.choice("kind", 3)
    exc = E.pick("exception", [ValueError(), KeyError("x"), RuntimeError(), AssertionError(), OSError(5, "x"), StopIteration()]) if kind == 2 else ValueError()

    async def later(hdr, cmd):
        got.append(cmd.group_id)
        if kind == 1:
            raise ValueError

    def bad(hdr, cmd):
        got.append(cmd.group_id)
        raise exc

    grp = E.bits("group", 16)
    second = []
    with app.callback_for_response(devs[0], [lambda h, c: True], bad if kind == 2 else later), \
            app.callback_for_response(devs[0], [lambda h, c: True], lambda h, c: second.append(c.group_id)), \
            app.wait_for_response(devs[0], [lambda h, c: True]) as fut:
        app.packet_received(world.packet(devs[0], world.zcl(0x11, 1, 1, le(E, grp, 2)), cluster=4))
        loop.drain()
    E.check(len(got) == 1 and got[0] == grp, "the callback runs once")
    E.check(len(second) == 1 and fut.done(), "and the others are told too")
    E.reach("async_callback" if kind < 2 else "raising")


def answers(E):
    """Replies to requests are not offered to listeners; ZDO frames match functions only."""
    loop, app, devs = make(E)
    seen = []
    with app.callback_for_response(ANY_DEVICE, [lambda h, c: True], lambda h, c: seen.append(h.tsn)), \
            app.wait_for_response(devs[0], [RSP(status=0), ADD()]) as fut:
        task = loop.spawn(devs[0].request(260, 4, 1, 1, E.bits("tsn", 8), b"request"))
        tsn = E.bits("ptsn", 8)
        app.packet_received(world.packet(devs[0], world.zcl(0x19, tsn, 0, bytes([0, 1, 2])), cluster=4))
        loop.drain()
        hit = tsn == app.sent[0].tsn
        E.check(task.done() == hit, "the reply")
        E.check(len(seen) == (0 if hit else 1), "a reply is not offered to listeners")
        E.check(fut.done() == (not hit), "an unrelated response is")
        E.reach("reply")
        n = len(seen)
        app.packet_received(world.packet(devs[0], bytes([E.bits("ztsn", 8), 1, 2]), cluster=0x0002, src_ep=0, dst_ep=0, profile=0))
        loop.drain()
        E.check(len(seen) == n + 1, "ZDO frames are offered too")
        E.reach("zdo")
    task.cancel()
    loop.drain()


def matching(E):
    """A command matches a pattern when every field the pattern gives is equal."""
    cls = E.pick("schema", [RSP, general.Ota.ServerCommandDefs.query_next_image.schema, general.Ota.ServerCommandDefs.image_block.schema, VIEW])
    other = E.pick("other", [RSP, VIEW, None])
    vals, pat, eq = {}, {}, []
    for fld in cls.fields:
        if fld.optional and not E.bool("present"):
            continue
        ty = fld.type
        if ty is t.EUI64 or issubclass(ty, t.Struct):
            continue
        hi = 1 if issubclass(ty, t.bitmap8) else 255
        if issubclass(ty, t.enum8):
            v = ty(E.pick("enum", [0, 0x86]))
        else:
            v = ty(E.int("v", 0, hi))
        vals[fld.name] = v
        if E.bool("given"):
            w = ty(E.pick("enum", [0, 0x86])) if issubclass(ty, t.enum8) else ty(E.int("w", 0, hi))
            pat[fld.name] = w
            eq.append(v == w)
    want = E.all(*eq) if eq else True
    E.check(cls(**vals).matches(cls(**pat)) == want, "matches exactly when the given fields are equal")
    if other is not None and other is not cls:
        E.check(not cls(**vals).matches(other()), "a command matches no other kind")


def units(tier):
    out = [("callbacks", callbacks, {}), ("answers", answers, {}), ("matching", matching, {})]
    combos = [
        ((0, 1), (0, 0)), ((0, 2), (0, 2)), ((1, 0), (2, 0)), ((0, 0), (0, 1)), ((2, 2), (0, 2)), ((1, 1), (0, 2)), ((2, 0), (1, 2)), ((0, 0), (2, 2)),
        ((0, 2, 1), (0, 0, 0)), ((2, 1, 0), (2, 0, 0)), ((0, 1, 2), (2, 2, 0)),
    ]
    return out + [(f"dispatch:{k}:{s}", dispatch, dict(kinds=k, srcs=s)) for k, s in combos]
