"""Energy scans, choosing a channel and moving the network to another one."""

import asyncio

import zigpy.exceptions
import zigpy.types as t
import zigpy.util
import zigpy.zdo.types as zdot
from props import world
from props.common import chunks, le

BOUNDS = ("scan requests with arbitrary settings and answers for up to 3 arbitrary channels, or failing in 3 ways; channels chosen from 9 lists for any energies between 0 and 255 on each channel; "
          "moves between any channels with any update identifier and 1 to 5 broadcasts, settings applied after up to 2 reloads, any step failing")
OUTSIDE = "choosing with other kernels or penalties; rounding of scores: scores are exact; answers to scans with an error status"
REACH = ["scanned", "unsupported", "chosen", "quiet", "dominance", "moved", "same", "waited", "failed", "wrapped"]
MIN, ALL = 11, list(range(11, 27))
BEST, OK = (15, 20, 25), (11, 26)


def scan(E, how):
    loop = E.loop()
    app = world.make_app()
    dev = world.add_device(app, ieee=world.NCP, nwk=0)
    asked = E.pick("asked", [[11, 15, 26], ALL, [20], []])
    mask = t.Channels.from_channel_list(asked)
    exp, count = E.int("exp", 0, 5), E.bits("count", 8)
    if how == "error":
        app.fail = lambda p: zigpy.exceptions.DeliveryError("no")
    task = loop.spawn(app.energy_scan(mask, duration_exp=exp, count=count))
    E.check(len(app.sent) == 1, "one request")
    p = app.sent[0]
    raw = p.data.serialize()
    E.check(E.all(p.dst.address == 0, p.cluster_id == 0x0038, p.profile_id == 0, p.dst_ep == 0), "asked of the coordinator itself")
    tsn = raw[0]
    E.check(raw == le(E, tsn, 1) + le(E, int(mask), 4) + le(E, exp, 1) + le(E, count, 1), "the request has the channels, duration and count")
    if how == "answer":
        got = E.pick("got", [[11, 15, 26], [12], []])
        vals = [E.bits("energy", 8) for _ in got]
        body = b"\x00" + le(E, int(t.Channels.from_channel_list(got)), 4) + le(E, E.bits("tt", 16), 2) + le(E, E.bits("tf", 16), 2) + le(E, len(got), 1)
        for v in vals:
            body = body + le(E, v, 1)
        app.packet_received(world.packet(dev, le(E, tsn, 1) + body, cluster=0x8038, src_ep=0, dst_ep=0, profile=0))
        loop.drain()
        E.check(task.done(), "the answer ends it")
        r = task.result()
        E.check(list(r) == got and E.all(*[r[c] == v for c, v in zip(got, vals)]), "the energy of each channel that was scanned")
        E.reach("scanned")
        return
    if how == "timeout":
        while not task.done() and loop.next_timer() is not None:
            loop.fire_next()
    loop.drain()
    E.check(task.done() and task.exception() is None, "a radio that cannot scan is no failure")
    r = task.result()
    E.check(list(r) == asked and all(v == 0 for v in r.values()), "all channels asked for are reported as quiet")
    E.reach("unsupported")


LISTS = [BEST, [11, 15, 20, 25], [26, 12], [25, 26], [13], [11, 26, 17], [15, 16], [24, 25, 26], [11, 12]]


def penalty(c):
    return 0 if c in BEST else 1 if c in OK else 2


def near(c):
    """What is around a channel; beyond the ends it is as at the ends."""
    return [min(26, max(11, c + d)) for d in (-2, -1, 0, 1, 2)]


def optimal(E, chans, mask):
    energy = {c: E.real(f"e{c}", 0, 255) for c in ALL}
    arg = t.Channels.from_channel_list(chans) if mask else list(chans)
    got = zigpy.util.pick_optimal_channel(energy, channels=arg)
    E.check(got in chans, "an allowed channel is chosen")
    for d in chans:
        if d == got or penalty(d) > penalty(got):
            continue
        better = E.all(energy[d] < energy[got], *[energy[a] <= energy[b] for a, b in zip(near(d), near(got))])
        E.check(E.not_(better), "no other allowed channel is quieter in every respect")
        E.reach("dominance")
        if penalty(d) < penalty(got):
            E.check(E.not_(E.all(*[energy[a] <= energy[b] for a, b in zip(near(d), near(got))])), "a less suitable channel has to be quieter")
    E.reach("chosen")


def quiet(E, mask):
    """With the same energy everywhere the kind of channel decides."""
    level = E.int("level", 0, 255)
    chans = LISTS[mask]
    got = zigpy.util.pick_optimal_channel(dict.fromkeys(ALL, level), channels=list(chans))
    E.check(penalty(got) == min(penalty(c) for c in chans), "a channel of the most suitable kind")
    E.reach("quiet")


class Radio(world.App):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.pending = None
        self.times = []

    async def load_network_info(self, *, load_devices=False):
        self.calls.append(("load", load_devices))
        self.times.append(asyncio.get_running_loop().time())
        if self.pending is not None:
            self.pending[0] -= 1
            if self.pending[0] <= 0:
                self.state.network_info.channel = self.pending[1]


def move(E, n, bad):
    loop = E.loop()
    app = world.make_app(cls=Radio)
    dev = world.add_device(app, ieee=world.NCP, nwk=0)
    old, new = t.uint8_t(E.int("old", 11, 26)), E.pick("new", [11, 19, 26])
    upd = t.uint8_t(E.bits("update", 8))
    app.state.network_info.channel, app.state.network_info.nwk_update_id = old, upd
    at = []
    start = loop.time()
    wait = E.choice("wait", 3)

    def fail(p):
        at.append(loop.time())
        if len(at) == bad + 1:
            return zigpy.exceptions.DeliveryError("no")
        if len(at) == n + 1:
            # the coordinator has been told
            app.pending = [wait, new]
            if wait == 0:
                app.state.network_info.channel = new
            loop.call_later(0, lambda: app.packet_received(world.packet(dev, p.data.serialize()[:1] + b"\x00" + le(E, 0, 4) + le(E, 0, 4) + le(E, 0, 1), cluster=0x8038, src_ep=0, dst_ep=0, profile=0)))
        return None

    app.fail = fail
    task = loop.create_task(app.move_network_to_channel(new, num_broadcasts=n) if n != 5 else app.move_network_to_channel(new))
    loop.drain()
    if E.concrete(bool(old == new)):
        E.check(task.done() and task.exception() is None and app.sent == [], "already there: nothing to do")
        E.reach("same")
        return
    while not task.done() and loop.next_timer() is not None:
        loop.fire_next()
    E.check(task.done(), "it ends")
    nid = (upd + 1) % 255
    body = le(E, 1 << new, 4) + b"\xfe" + le(E, nid, 1)
    for k, p in enumerate(app.sent):
        raw = p.data.serialize()
        E.check(raw[1:] == body, "the request names the channel and the new update identifier")
        E.check(E.all(p.cluster_id == 0x0038, p.profile_id == 0, p.src_ep == 0, p.dst_ep == 0), "a network update request")
        if k < n:
            E.check(E.all(p.dst.addr_mode == t.AddrMode.Broadcast, p.dst.address == 0xFFFF, p.radius == 30), "every device is told")
            E.check(at[k] == start + k, "one second apart")
        else:
            E.check(E.all(p.dst.addr_mode == t.AddrMode.NWK, p.dst.address == 0), "then the coordinator itself")
    E.check(E.all(nid != 255), "the update identifier stays valid")
    if E.concrete(bool(upd >= 254)):
        E.reach("wrapped")
    if bad <= n:
        E.check(isinstance(task.exception(), zigpy.exceptions.DeliveryError) and len(app.sent) == bad + 1, "a failure ends it and is reported")
        E.check(app.calls == [], "nothing else is done")
        E.reach("failed")
        return
    E.check(task.exception() is None and len(app.sent) == n + 1, "as many broadcasts as asked for")
    E.check(at[n] == start + n, "the coordinator moves last")
    E.check(app.state.network_info.channel == new, "it ends when the settings have changed")
    E.check([c for c in app.calls] == [("load", False)] * max(0, wait), "the settings are reloaded until they have changed")
    E.check(app.times == [start + n + k for k in range(wait)], "and not too often")
    if wait:
        E.reach("waited")
    E.reach("moved")


def units(tier):
    for how in ("answer", "error", "timeout"):
        yield f"scan-{how}", scan, dict(how=how)
    for i, ch in enumerate(LISTS):
        yield f"optimal-{i}", optimal, dict(chans=ch, mask=i % 2 == 0)
        yield f"quiet-{i}", quiet, dict(mask=i)
    if tier == "thorough":
        yield "optimal-all", optimal, dict(chans=ALL, mask=True)
    for n in (1, 2, 5):
        for bad in (0, 1, 5, 9):
            yield f"move-{n}-{bad}", move, dict(n=n, bad=bad)
