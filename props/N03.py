"""Forming a network: what is configured is used, what is not is chosen within limits."""

import os
import random

import zigpy.application
import zigpy.config as conf
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from props.N02 import Net

BOUNDS = ("configured and missing identifiers and keys, with arbitrary values; channel lists of up to 3 channels; arbitrary random values drawn; the radio initially with or without a network; "
          "any of 4 energy scans; any of the radio's operations failing")
OUTSIDE = "how random the random values are; random addresses and keys of all ones, which mean 'unknown'"
ASSUMPTIONS = ["random.SystemRandom and os.urandom return arbitrary values in the range asked for"]
REACH = ["configured", "random", "fast", "scan", "no_scan", "ephemeral", "running", "backup", "no_backup", "fails"]

SCANS = [{c: 0 for c in range(11, 27)}, {c: 255 if c != 25 else 3 for c in range(11, 27)}, {c: 10 * (c - 11) for c in range(11, 27)}, {c: 10 * (26 - c) for c in range(11, 27)}]
LISTS = [[11, 15, 20, 25], [26], [12, 13, 14]]


class Radio(Net):
    def __init__(self, cfg):
        super().__init__(cfg)
        self.formed = False
        self.broken = None
        self.scan = SCANS[0]

    def op(self, *call):
        self.calls.append(call)
        if self.broken == call[0]:
            raise OSError("broken")

    async def start_network(self):
        self.op("start")
        if not self.formed:
            raise zigpy.exceptions.NetworkNotFormed

    async def write_network_info(self, *, network_info, node_info):
        self.op("write", network_info, node_info)
        self.formed = True
        self.stored = (network_info, node_info)

    async def energy_scan(self, channels, duration_exp, count):
        self.op("scan", channels, duration_exp, count)
        return dict(self.scan)


class SystemRandom:
    """Any number within the limits asked for."""

    def __init__(self, E):
        self.E = E

    def __call__(self, *a):
        return self

    def randint(self, a, b):
        return self.E.int("randint", a, b)

    def randrange(self, a, b=None):
        return self.E.int("randrange", *((0, a - 1) if b is None else (a, b - 1)))

    def getrandbits(self, n):
        return self.E.bits("getrandbits", n)

    def choice(self, xs):
        return self.E.pick("choice", list(xs))


def raw_eq(E, a, b):
    return E.all(len(list(a)) == len(list(b)), *[x == y for x, y in zip(list(a), list(b))])


def form(E, fast, chan, formed, broken=None):
    loop = E.loop()
    app = world.make_app(cls=Radio)
    app.formed = formed
    app.broken = broken
    rec = world.Rec("network_backup_created")
    app.backups.add_listener(rec)
    cfg = app.config[conf.CONF_NWK]
    given = {}
    drawn = []

    def urandom(n):
        raw = E.bytes("urandom", n)
        E.assume(E.not_(E.all(*[x == 0xFF for x in list(raw)])))
        drawn.append(raw)
        return raw

    E.patch(os, "urandom", urandom)
    E.patch(random, "SystemRandom", SystemRandom(E))
    chans, aslist = E.pick("channels", list(zip(LISTS, (False, True, False))))
    cfg[conf.CONF_NWK_CHANNELS] = chans if aslist else t.Channels.from_channel_list(chans)
    scan = E.choice("scan", 4) if chan is None and not fast else 0
    app.scan = SCANS[scan]
    if chan is not None:
        given["channel"] = cfg[conf.CONF_NWK_CHANNEL] = t.uint8_t(E.pick("channel", [11, 18, 26]))
    ids, keys = (False, False) if broken else E.pick("set", [(False, False), (True, False), (True, True)])
    if ids:
        given["pan"] = cfg[conf.CONF_NWK_PAN_ID] = t.PanId(E.int("pan", 0x0001, 0xFFFE))
        given["ext"] = cfg[conf.CONF_NWK_EXTENDED_PAN_ID] = t.ExtendedPanId.deserialize(b"\x01" + E.bytes("ext", 7))[0]
    if keys:
        given["key"] = cfg[conf.CONF_NWK_KEY] = t.KeyData.deserialize(b"\x01" + E.bytes("key", 15))[0]
        given["tc"] = cfg[conf.CONF_NWK_TC_ADDRESS] = t.EUI64.deserialize(E.bytes("tc", 8))[0]
        given["link"] = cfg[conf.CONF_NWK_TC_LINK_KEY] = t.KeyData.deserialize(E.bytes("link", 16))[0]
    cfg[conf.CONF_NWK_KEY_SEQ] = seq = t.uint8_t(E.bits("seq", 8))
    cfg[conf.CONF_NWK_UPDATE_ID] = upd = t.uint8_t(E.bits("upd", 8))
    done = loop.spawn(app.form_network(fast=fast) if fast else app.form_network())
    loop.drain()
    ops = [c[0] for c in app.calls]
    if broken is not None and broken in ops:
        E.check(isinstance(done.exception(), OSError), "a failure of the radio is reported")
        E.reach("fails")
        return
    E.check(done.done() and done.exception() is None, "the network is formed")
    writes = [c for c in app.calls if c[0] == "write"]
    net, ni = writes[-1][1:]
    # what led to it
    scans = chan is None and not fast
    exp = []
    if scans:
        exp += ["start"]
        if not formed:
            exp += ["write", "start"]
            E.reach("ephemeral")
            e_net = writes[0][1]
            E.check(bool(e_net.stack_specific.get("form_quickly")), "the first network is marked as temporary")
            E.check(E.any(*[e_net.channel == c for c in chans]), "the temporary network uses an allowed channel")
        else:
            E.reach("running")
        exp += ["scan"]
    exp += ["write"] + ([] if fast else ["load"])
    E.check(ops == exp, "what the radio is asked for, in order")
    if scans:
        E.reach("scan")
        s = [c for c in app.calls if c[0] == "scan"][0]
        E.check(list(s[1]) == list(range(11, 27)), "every channel is scanned")
        E.check(E.any(*[net.channel == c for c in chans]), "an allowed channel is chosen")
        if scan == 1 and 25 in chans:
            E.check(net.channel == 25, "the quietest channel is chosen")
    elif chan is not None:
        E.reach("configured")
        E.check(net.channel == given["channel"], "the configured channel is used")
    else:
        E.reach("no_scan")
        E.check(E.any(*[net.channel == c for c in chans]), "an allowed channel is chosen")
    E.check(list(net.channel_mask) == [E.concrete(net.channel)], "the channel mask has just the channel")
    E.check(E.all(net.nwk_update_id == upd, net.network_key.seq == seq, net.security_level == 5, net.nwk_manager_id == 0, net.network_key.tx_counter == 0), "other settings")
    if "pan" in given:
        E.check(E.all(net.pan_id == given["pan"], raw_eq(E, net.extended_pan_id, given["ext"])), "configured identifiers are used")
    else:
        E.check(E.all(net.pan_id >= 1, net.pan_id <= 0xFFFE), "a random identifier is a valid one")
        E.check(E.any(*[raw_eq(E, net.extended_pan_id.serialize(), d) for d in drawn if len(d) == 8]), "the extended identifier is random")
        E.reach("random")
    if "key" in given:
        E.check(E.all(raw_eq(E, net.network_key.key, given["key"]), raw_eq(E, net.tc_link_key.key, given["link"]), raw_eq(E, net.tc_link_key.partner_ieee, given["tc"])),
                "configured keys are used")
    else:
        E.check(E.any(*[raw_eq(E, net.network_key.key.serialize(), d) for d in drawn if len(d) == 16]), "the network key is random")
        E.check(bytes(net.tc_link_key.key) == b"ZigBeeAlliance09", "the well-known link key unless configured")
    E.check(E.all(ni.nwk == 0, ni.logical_type == zdot.LogicalType.Coordinator, raw_eq(E, ni.ieee, t.EUI64.UNKNOWN)), "we are the coordinator, with the radio's own address")
    E.check(net.children == [] and net.key_table == [] and net.nwk_addresses == {}, "no devices yet")
    E.check(bool(net.stack_specific.get("form_quickly")) == fast, "temporary networks are marked")
    if fast:
        E.reach("fast")
        E.check(app.backups.backups == [], "no backup of a temporary network")
        E.reach("no_backup")
    else:
        # the radio still says it has no address of its own
        E.check(len(rec.events) == 0, "an incomplete backup is not kept")
        app.stored = (net, ni.replace(ieee=world.NCP))
        loop.run(app.backups.create_backup())
        E.check(len(rec.events) == 1, "a formed network can be backed up")
        E.reach("backup")


def units(tier):
    for chan in (None, 1):
        for fast in (False, True):
            for formed in (False, True) if not fast else (False,):
                yield f"form-{'channel' if chan else 'any'}-{'fast' if fast else 'full'}-{int(formed)}", form, dict(fast=fast, chan=chan, formed=formed)
    for op in ("start", "write", "scan"):
        for formed in (False, True):
            yield f"fail-{op}-{int(formed)}", form, dict(fast=False, chan=None, formed=formed, broken=op)
