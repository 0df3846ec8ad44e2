"""Network backups: what is complete, compatible, kept, taken and restored."""

import asyncio
import datetime

import zigpy.backups
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from props.common import le

BOUNDS = ("pairs of backups with arbitrary settings; histories of 3 added backups with arbitrary frame counters, one arbitrary setting, complete or not, from 4 kinds of listener suppression; "
          "any counter and increment on restoring; 5 periodic backups with failures at any of them, and stopping or restarting at any of 6 times")
OUTSIDE = "frame counters that overflow 32 bits when restored"
REACH = ["compatible", "incompatible", "irrelevant", "supersedes", "complete", "incomplete", "replaced", "kept", "ignored", "suppressed", "created", "snapshot", "restored", "refused",
         "incomplete_restored", "no_new", "write_failed", "periodic", "periodic_failure", "stopped", "restarted"]

LT = [zdot.LogicalType.Coordinator, zdot.LogicalType.Router]
T0 = datetime.datetime(2026, 1, 2, tzinfo=datetime.timezone.utc)


def eui(E, name, cls=t.EUI64):
    return cls.deserialize(E.bytes(name, 8))[0]


def backup(E, p, lt=LT[0], source="a", time=T0, kids=0):
    """Everything that decides compatibility is arbitrary, and so is some of the rest."""
    net, ni = zigpy.state.NetworkInfo(), zigpy.state.NodeInfo()
    ni.nwk, ni.ieee, ni.logical_type = t.NWK(E.bits(p + "nwk", 16)), eui(E, p + "ieee"), lt
    net.extended_pan_id = eui(E, p + "ext", t.ExtendedPanId)
    net.pan_id = t.PanId(E.bits(p + "pan", 16))
    net.nwk_update_id = t.uint8_t(E.bits(p + "update", 8))
    net.nwk_manager_id = t.NWK(E.bits(p + "manager", 16))
    net.channel = t.uint8_t(E.bits(p + "channel", 8))
    net.security_level = t.uint8_t(E.bits(p + "security", 8))
    net.tc_link_key = zigpy.state.Key(key=t.KeyData.deserialize(E.bytes(p + "tc", 16))[0], tx_counter=E.bits(p + "tctx", 32), partner_ieee=eui(E, p + "tcp"))
    net.network_key = zigpy.state.Key(key=t.KeyData.deserialize(E.bytes(p + "key", 16))[0], tx_counter=E.bits(p + "tx", 32), seq=E.bits(p + "seq", 8))
    net.source = source
    net.children = [world.IEEES[i] for i in range(kids)]
    return zigpy.backups.NetworkBackup(backup_time=time, network_info=net, node_info=ni)


def raw_eq(E, a, b):
    return E.all(*[x == y for x, y in zip(list(a), list(b))])


def spec_same(E, a, b):
    x, y = a.network_info, b.network_info
    if a.node_info.logical_type != b.node_info.logical_type:
        return False
    return E.all(a.node_info.nwk == b.node_info.nwk, raw_eq(E, a.node_info.ieee, b.node_info.ieee), raw_eq(E, x.extended_pan_id, y.extended_pan_id), x.pan_id == y.pan_id,
                 x.nwk_update_id == y.nwk_update_id, x.nwk_manager_id == y.nwk_manager_id, x.channel == y.channel, x.security_level == y.security_level,
                 raw_eq(E, x.tc_link_key.key, y.tc_link_key.key), raw_eq(E, x.network_key.key, y.network_key.key))


def compatible(E, lt):
    a, b = backup(E, "a"), backup(E, "b", lt=LT[lt], source="b", time=T0.replace(year=2020), kids=2)
    exp = spec_same(E, a, b)
    got, back = a.is_compatible_with(b), b.is_compatible_with(a)
    if E.concrete(bool(got)):
        E.reach("compatible")
        E.check(exp, "settings a device would notice are the same")
        E.check(back, "compatibility goes both ways")
        sup = a.supersedes(b)
        E.check(bool(sup) == bool(a.network_info.network_key.tx_counter > b.network_info.network_key.tx_counter), "the one with more frames sent is newer")
        E.reach("supersedes")
    else:
        E.reach("incompatible")
        E.check(E.not_(exp), "only settings a device would notice matter")
        E.check(not back, "compatibility goes both ways")
        E.check(not a.supersedes(b), "a backup of another network is not an older one")


def irrelevant(E):
    """Other content may differ."""
    a = backup(E, "a")
    net = a.network_info.replace(
        network_key=a.network_info.network_key.replace(tx_counter=E.bits("tx", 32), rx_counter=E.bits("rx", 32), seq=E.bits("seq", 8)),
        tc_link_key=a.network_info.tc_link_key.replace(tx_counter=E.bits("tctx", 32), seq=E.bits("tcseq", 8), partner_ieee=eui(E, "tcp")),
        children=[world.IEEES[0]], nwk_addresses={world.IEEES[1]: t.NWK(E.bits("n", 16))}, source="b", metadata={"x": 1}, stack_specific={"y": 2},
        channel_mask=t.Channels.ALL_CHANNELS, key_table=[zigpy.state.Key()])
    b = zigpy.backups.NetworkBackup(backup_time=T0.replace(year=2027), network_info=net, node_info=a.node_info.replace(model="m", manufacturer="f", version="v"))
    E.check(a.is_compatible_with(b) and b.is_compatible_with(a), "what devices do not notice does not matter")
    E.reach("irrelevant")


def complete(E):
    a = backup(E, "a")
    net = a.network_info
    unknown = lambda x: E.all(*[i == 0xFF for i in list(x)])  # noqa: E731
    exp = E.all(E.not_(unknown(a.node_info.ieee)), E.not_(unknown(net.extended_pan_id)), net.pan_id != 0, net.pan_id != 0xFFFF, net.channel >= 11, net.channel <= 26,
                E.not_(unknown(net.network_key.key)))
    if a.is_complete():
        E.reach("complete")
        E.check(exp, "nothing needed is missing")
    else:
        E.reach("incomplete")
        E.check(E.not_(exp), "something needed is missing")


BASE = dict(ieee=world.NCP, ext=t.ExtendedPanId.convert("11:22:33:44:55:66:77:88"), key=t.KeyData.convert("00112233445566778899aabbccddeeff"))


def simple(tx, pan=0x1234, channel=15, update=0):
    net = zigpy.state.NetworkInfo(extended_pan_id=BASE["ext"], pan_id=pan, channel=channel, nwk_update_id=update, network_key=zigpy.state.Key(key=BASE["key"], tx_counter=tx), security_level=5)
    return zigpy.backups.NetworkBackup(backup_time=T0, network_info=net, node_info=zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=BASE["ieee"], logical_type=LT[0]))


def history(E, n, suppress, bad):
    """Which backups remain after adding some."""
    app = world.make_app()
    rec = world.Rec("network_backup_created", "network_backup_removed")
    app.backups.add_listener(rec)
    E.check(app.backups.most_recent_backup() is None, "none to begin with")
    kept = []
    for k in range(n):
        tx, pan = E.bits(f"tx{k}", 32), E.int(f"pan{k}", 0x0001, 0xFFFE)
        if k == bad:
            tx, pan = tx, t.PanId(0xFFFF)
        b = simple(tx, pan=t.PanId(pan))
        del rec.events[:]
        app.backups.add_backup(b, suppress_event=suppress)
        if k == bad:
            E.check(rec.events == [] and len(app.backups.backups) == len(kept), "an incomplete backup is ignored")
            E.reach("ignored")
            continue
        gone = [o for o in kept if E.concrete(bool(o.network_info.pan_id == pan)) and E.concrete(bool(o.network_info.network_key.tx_counter <= tx))]
        kept = [o for o in kept if not any(o is g for g in gone)] + [b]
        have = app.backups.backups
        E.check(len(have) == len(kept) and all(x is y for x, y in zip(have, kept)), "exactly the compatible backups that are no newer are replaced")
        E.check(app.backups.most_recent_backup() is b and app.backups[-1] is b, "the most recent one is the one added last")
        if suppress:
            E.check(rec.events == [], "no events when they are suppressed")
            E.reach("suppressed")
        else:
            removed = [e[0] for e in rec.of("network_backup_removed")]
            E.check(len(removed) == len(gone) and all(any(x is g for g in gone) for x in removed), "each removal is announced")
            E.check(len(rec.of("network_backup_created")) == 1 and rec.of("network_backup_created")[0][0] is b, "the new one is announced")
            E.check(rec.events[-1][0] == "network_backup_created", "the new one is announced last")
        E.reach("replaced" if gone else "kept")


class Net(world.App):
    """A radio with settings; loads them as the harness says."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.stored = None
        self.inplace = False
        self.load_fail = None
        self.write_fail = None

    async def write_network_info(self, *, network_info, node_info):
        self.calls.append(("write", network_info, node_info))
        if self.write_fail is not None:
            raise self.write_fail
        self.stored = (network_info, node_info)

    async def load_network_info(self, *, load_devices=False):
        self.calls.append(("load", load_devices))
        if self.load_fail is not None and self.load_fail():
            raise asyncio.TimeoutError()
        if self.stored is None:
            return
        if self.inplace:
            net, ni = self.stored
            for o, src in ((self.state.network_info, net), (self.state.node_info, ni)):
                for k in src.__dataclass_fields__:
                    setattr(o, k, getattr(src, k))
        else:
            self.state.network_info, self.state.node_info = self.stored


def snapshot(E, how):
    """A backup is not changed by what happens later."""
    loop = E.loop()
    app = world.make_app(cls=Net)
    rec = world.Rec("network_backup_created", "network_backup_removed")
    app.backups.add_listener(rec)
    app.inplace = how != "new"
    tx1, tx2 = E.bits("tx1", 32), E.bits("tx2", 32)
    c1, c2 = E.int("c1", 11, 26), E.int("c2", 11, 26)
    devs = E.bool("load_devices")
    first = simple(tx1, channel=c1)
    app.stored = (first.network_info, first.node_info)
    a = loop.run(app.backups.create_backup(load_devices=devs))
    E.check(app.calls == [("load", devs)], "the settings are loaded")
    E.check(app.backups.backups[-1] is a, "the backup is kept")
    E.check(E.all(a.network_info.network_key.tx_counter == tx1, a.network_info.channel == c1, a.node_info.nwk == 0), "it has the settings")
    E.reach("created")
    second = simple(tx2, channel=c2)
    if how == "deep":
        # deeper parts are updated in place
        net = app.state.network_info
        net.network_key.tx_counter = tx2
        net.children.append(world.IEEES[1])
        net.nwk_addresses[world.IEEES[1]] = t.NWK(0x4444)
        net.stack_specific["x"] = 1
        net.channel = c2
        app.state.node_info.nwk = t.NWK(0x0000)
        app.stored = None
    else:
        app.stored = (second.network_info, second.node_info)
    E.check(E.all(a.network_info.network_key.tx_counter == tx1, a.network_info.channel == c1), "what changes later does not change a backup")
    E.check(a.network_info.children == [] and a.network_info.nwk_addresses == {} and a.network_info.stack_specific == {}, "what changes later does not change a backup")
    b = loop.run(app.backups.create_backup())
    E.check(E.all(a.network_info.network_key.tx_counter == tx1, a.network_info.channel == c1), "what changes later does not change a backup")
    E.check(E.all(b.network_info.network_key.tx_counter == tx2, b.network_info.channel == c2), "the next backup has the new settings")
    if E.concrete(bool(c1 == c2)) and E.concrete(bool(tx1 <= tx2)):
        E.check(len(app.backups.backups) == 1, "a newer one replaces it")
    else:
        E.check(len(app.backups.backups) == 2 and app.backups.backups[0] is a, "a backup of other settings is kept")
    E.reach("snapshot")


def restore(E, kind):
    loop = E.loop()
    app = world.make_app(cls=Net)
    rec = world.Rec("network_backup_created")
    app.backups.add_listener(rec)
    tx, inc = E.int("tx", 0, 2**31), E.pick("inc", [None, 0, 1, 2500])
    if kind == "any_inc":
        inc = E.int("incn", 0, 2**31 - 1)
    pan = E.bits("pan", 16)
    b = simple(tx, pan=t.PanId(pan))
    b.network_info.children = [world.IEEES[2]]
    allow, new = E.bool("allow"), E.pick("new", [None, True, False])
    kw = {}
    if inc is not None:
        kw["counter_increment"] = inc
    if new is not None:
        kw["create_new"] = new
    if allow:
        kw["allow_incomplete"] = True
    fails = E.bool("fails")
    if fails:
        app.write_fail = OSError("no")
    done = loop.spawn(app.backups.restore_backup(b, **kw))
    loop.drain()
    E.check(done.done(), "done")
    full = E.concrete(bool(E.all(pan != 0, pan != 0xFFFF)))
    if not full and not allow:
        E.check(isinstance(done.exception(), ValueError), "an incomplete backup is refused")
        E.check(app.calls == [], "nothing is written")
        E.reach("refused")
        return
    E.check(app.calls[0][0] == "write" and [c[0] for c in app.calls].count("write") == 1, "the settings are written once")
    net, ni = app.calls[0][1:]
    E.check(net.network_key.tx_counter == tx + (10000 if inc is None else inc), "the frame counter is moved ahead")
    E.check(b.network_info.network_key.tx_counter == tx, "the backup itself is not changed")
    E.check(E.all(net.pan_id == pan, net.channel == 15, net.children == [world.IEEES[2]], net.network_key.key == BASE["key"], net.extended_pan_id == BASE["ext"], ni == b.node_info),
            "everything else is written as it was")
    if fails:
        E.check(isinstance(done.exception(), OSError) and app.backups.backups == [], "a failure is reported")
        E.reach("write_failed")
        return
    E.check(done.exception() is None, "it succeeds")
    if new is False:
        E.check(len(app.calls) == 1 and app.backups.backups == [], "no new backup when it is not wanted")
        E.reach("no_new")
    else:
        E.check([c[0] for c in app.calls] == ["write", "load"], "then a new backup is made of what was written")
        E.check(len(app.backups.backups) == (1 if full else 0), "then a new backup is made")
        if full:
            E.check(app.backups.backups[0].network_info.network_key.tx_counter == tx + (10000 if inc is None else inc), "it has the new counter")
    E.reach("restored" if full else "incomplete_restored")


def periodic(E, op):
    loop = E.loop()
    app = world.make_app(cls=Net)
    b = simple(5)
    app.stored = (b.network_info, b.node_info)
    period = E.int("period", 1, 100000)
    times, fails = [], []
    bad = E.choice("bad", 6)

    def load_fail():
        times.append(loop.time())
        fails.append(len(times) == bad + 1)
        return fails[-1]

    app.load_fail = load_fail
    start = loop.time()
    if op == "stop_early":
        app.backups.stop_periodic_backups()
    app.backups.start_periodic_backups(period)
    loop.drain()
    stop = E.choice("stop", 5) if op in ("stop", "restart") else 9
    for k in range(5):
        if k == stop:
            if op == "stop":
                app.backups.stop_periodic_backups()
                E.reach("stopped")
            else:
                app.backups.start_periodic_backups(period)
                E.reach("restarted")
            loop.drain()
            n = len(times)
            loop.advance(period * 2)
            E.check(len(times) == n + (0 if op == "stop" else 2), "stopping stops, starting again does not double")
            return
        E.check(len(times) == k + 1, "one backup each period, whether or not others failed")
        E.check(times[k] == start + k * period, "at once and then each period")
        if k == bad:
            E.reach("periodic_failure")
        E.check((len(app.backups.backups) == 1) == (k > 0 or bad != 0), "it is kept unless it failed")
        loop.advance(period)
    E.reach("periodic")


def units(tier):
    yield "compatible-0", compatible, dict(lt=0)
    yield "compatible-1", compatible, dict(lt=1)
    yield "irrelevant", irrelevant, {}
    yield "complete", complete, {}
    n = 3 if tier == "quick" else 4
    for bad in [None, *range(n)]:
        yield f"history-{bad}", history, dict(n=n, suppress=False, bad=bad)
    yield "history-suppress", history, dict(n=3, suppress=True, bad=1)
    for how in ("new", "inplace", "deep"):
        yield f"snapshot-{how}", snapshot, dict(how=how)
    for kind in ("inc", "any_inc"):
        yield f"restore-{kind}", restore, dict(kind=kind)
    for op in ("run", "stop", "restart", "stop_early"):
        yield f"periodic-{op}", periodic, dict(op=op)
