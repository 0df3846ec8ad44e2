"""Which providers are used, and how devices are called to ask for updates."""

import zigpy.config as conf
import zigpy.exceptions
import zigpy.ota as ota
import zigpy.ota.providers as pr
import zigpy.types as t
from props import world

BOUNDS = ("every combination of enabled and disabled, listed, extra, disabled and old-style settings of two provider types at a time, up to 3 listed and 2 extra providers with any override; up to 4 broadcasts with any "
          "delay, period, failures and time taken, stopped or restarted at any of them; networks of up to 2000 devices")
OUTSIDE = "paths and URLs are samples; whether files exist"
REACH = ["disabled", "extra", "overridden", "old-on", "old-off", "old-url", "remote", "failed", "stopped", "restarted", "shared", "all", "refused", "defaults"]

TYPES = {"ikea": "ikea_provider", "inovelli": "inovelli_provider", "ledvance": "ledvance_provider", "salus": "salus_provider", "sonoff": "sonoff_provider", "thirdreality": "thirdreality_provider", "z2m": "z2m_remote_index"}
URLS = {
    "ikea": "https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json", "ledvance": "https://api.update.ledvance.com/v1/zigbee/firmwares",
    "salus": "https://eu.salusconnect.io/demo/default/status/firmware", "sonoff": "https://zigbee-ota.sonoff.tech/releases/upgrade.json",
    "inovelli": "https://files.inovelli.com/firmware/firmware-zha-v2.json", "thirdreality": "https://tr-zha.s3.amazonaws.com/firmware.json",
    "z2m": "https://raw.githubusercontent.com/Koenkk/zigbee-OTA/master/index.json",
}
IDS = {"ikea": (4476,), "ledvance": (4489, 4364), "salus": (4216, 43981), "sonoff": (4742,), "inovelli": (4655,), "thirdreality": (4659, 4877, 5127), "z2m": (), "zigpy_remote": ()}


def name(p):
    return {c: n for n, c in pr.OTA_PROVIDER_TYPES.items()}[type(p)]


def used(o):
    return [(name(p), p.url, tuple(p.manufacturer_ids)) for p in o._providers]


def entry(E, typ, label, overriding=True):
    """(settings, what is expected of it, does it override)"""
    d, url, ids, over = {"type": typ}, URLS[typ], IDS[typ], False
    if E.bool(label + "_url"):
        d["url"] = url = f"https://{label}/"
    if E.bool(label + "_ids"):
        d["manufacturer_ids"] = ["0x1234", 5]
        ids = (0x1234, 5)
    if overriding and E.bool(label + "_override"):
        d["override_previous"] = over = True
    return d, (typ, url, ids), over


def make(E, config):
    E.patch(conf.validators.warnings, "warn", lambda *a, **k: None)
    return ota.OTA(conf.SCHEMA_OTA(config), None)


def merge(E, a, b, old):
    """Listed, extra, disabled and old-style settings together."""
    cfg, exp = {}, []
    types = {"a": a, "b": b}
    listed = E.pick("listed", ["", "a", "b", "ab", "aba", "aa"])
    extra = E.pick("extra", ["", "a", "b", "aa"])
    off = E.pick("off", ["", "a", "b", "ab"])
    cfg["providers"], cfg["extra_providers"] = [], []
    for which, key in ((listed, "providers"), (extra, "extra_providers")):
        for i, c in enumerate(which):
            override = E.bool(f"{key}{i}_override") if i or key == "extra_providers" else False
            cfg[key].append({"type": types[c], "override_previous": override, "url": f"https://{key}/{i}"})
            exp.append((types[c], f"https://{key}/{i}", IDS[types[c]], override))
            if key == "extra_providers":
                E.reach("extra")
    cfg["disable_default_providers"] = [types[c] for c in off]
    gone = {types[c] for c in off if c not in extra}
    if old:
        how = E.pick("old", [True, "on", "https://old/", False, "no"])
        cfg[TYPES[a]] = how
        if how in (True, "on", "https://old/"):
            exp.append((a, "https://old/" if how == "https://old/" else URLS[a], IDS[a], False))
            gone.discard(a)
            E.reach("old-url" if how == "https://old/" else "old-on")
        else:
            gone.add(a)
            E.reach("old-off")
    want = []
    for typ, url, ids, over in exp:
        if typ in gone:
            E.reach("disabled")
            continue
        if over:
            if [w for w in want if w[0] == typ]:
                E.reach("overridden")
            want = [w for w in want if w[0] != typ]
        want.append((typ, url, ids))
    E.check(used(make(E, cfg)) == want, "the providers used are those listed, extra and switched on, without those switched off or overridden, in order")
    E.check(used(make(E, {**cfg, "enabled": False})) == [], "none are used when updates are disabled")


def single(E, typ):
    d, want, _ = entry(E, typ, "one")
    o = make(E, {"providers": [d]})
    E.check(used(o) == [want], "a provider has the address and manufacturers configured, or its own")
    same = pr.OTA_PROVIDER_TYPES[typ](url=want[1], manufacturer_ids=list(want[2]))
    other = pr.OTA_PROVIDER_TYPES[typ](url=want[1] + "x", manufacturer_ids=list(want[2]))
    E.check(o._providers[0] == same and hash(o._providers[0]) == hash(same) and not (same == other), "providers are equal exactly if their address and manufacturers are")


def remote(E):
    ids = E.pick("ids", [None, [], [1, "0x0002"]])
    d = {"url": "https://r/"}
    if ids is not None:
        d["manufacturer_ids"] = ids
    o = make(E, {"providers": [], "remote_providers": [d, {"url": "https://s/"}]})
    E.check(used(o) == [("zigpy_remote", "https://r/", (1, 2) if ids else ()), ("zigpy_remote", "https://s/", ())], "old-style remote providers are used")
    E.reach("remote")


def advanced(E):
    E.patch(conf.validators.pathlib.Path, "is_dir", lambda self: True)
    E.patch(conf.validators.pathlib.Path, "is_file", lambda self: True)
    W = conf.CONF_OTA_ALLOW_ADVANCED_DIR_STRING
    how = E.pick("how", ["new", "new-index", "new-z2m", "old", "old-index"])
    if how == "new":
        o = make(E, {"providers": [], "extra_providers": [{"type": "advanced", "path": "/dir", "warning": W}]})
        E.check([(name(p), str(p.path)) for p in o._providers] == [("advanced", "/dir")], "a folder is used")
    elif how in ("new-index", "new-z2m"):
        typ = "zigpy_local" if how == "new-index" else "z2m_local"
        o = make(E, {"providers": [], "extra_providers": [{"type": typ, "index_file": "/dir/index"}]})
        E.check([(name(p), str(p.index_file)) for p in o._providers] == [(typ, "/dir/index")], "an index file is used")
    elif how == "old":
        o = make(E, {"providers": [], "advanced_ota_dir": "/dir", "allow_advanced_ota_dir": W})
        E.check([(name(p), str(p.path)) for p in o._providers] == [("advanced", "/dir")], "a folder configured the old way is used", known=("F37", True))
    else:
        o = make(E, {"providers": [], "z2m_local_index": "/dir/index"})
        E.check([(name(p), str(p.index_file)) for p in o._providers] == [("z2m_local", "/dir/index")], "an index file configured the old way is used")


def refused(E):
    """Settings that are not right are refused."""
    bad = E.pick("bad", [
        {"type": "nothing"}, {}, {"type": None}, {"type": "sonoff", "url": "no url"}, {"type": "sonoff", "url": 5}, {"type": "zigpy_remote"}, {"type": "zigpy_local"}, {"type": "z2m_local"},
        {"type": "advanced", "path": "/tmp"}, {"type": "advanced", "path": "/tmp", "warning": "I understand"}, {"type": "advanced", "warning": conf.CONF_OTA_ALLOW_ADVANCED_DIR_STRING},
        {"type": "sonoff", "override_previous": "yes"}, {"type": "sonoff", "manufacturer_ids": ["x"]}, {"type": "sonoff", "manufacturer_ids": 5}, {"type": "sonoff", "more": 1},
    ])
    E.check(E.raises(conf.vol.Invalid, conf.SCHEMA_OTA, {E.pick("where", ["providers", "extra_providers"]): [bad]}), "wrong settings of a provider are refused")
    E.reach("refused")


def defaults(E):
    o = make(E, {})
    E.check(used(o) == [(n, URLS[n], IDS[n]) for n in ("ledvance", "sonoff", "inovelli", "thirdreality")], "by default four providers are used")
    E.reach("defaults")


def call(E, how):
    """One broadcast."""
    loop = E.loop()
    app = world.make_app()
    n = E.pick("devices", [0, 1, 14, 15, 16, 17, 30, 100, 1499, 1500, 1501, 2000])
    app.devices = dict.fromkeys(range(n))
    app._send_sequence = E.bits("sequence", 8)
    kw, jitter = {}, 100 if n <= 15 else 1500 // n
    if how == "given":
        kw["jitter"] = jitter = E.bits("jitter", 8)
    dst = E.pick("to", [t.BroadcastAddress.ALL_DEVICES, t.BroadcastAddress.RX_ON_WHEN_IDLE, None])
    if dst is not None:
        kw["broadcast_address"] = dst
    app.fail = (lambda p: zigpy.exceptions.DeliveryError("no")) if E.bool("fails") else None
    task = loop.spawn(app.ota.broadcast_notify(**kw))
    E.check(task.done() and (task.exception() is None) == (app.fail is None), "a failure is reported")
    E.check(len(app.sent) == 1, "one packet is sent")
    p = app.sent[0]
    E.check(p.dst.addr_mode == t.AddrMode.Broadcast and p.dst.address == (0xFFFF if dst is None else dst) and p.dst_ep == 0xFF, "to all endpoints of all devices")
    E.check(p.src.addr_mode == t.AddrMode.NWK and p.src.address == 0 and p.profile_id == 260 and p.cluster_id == 0x0019, "as the OTA cluster")
    raw = p.data.serialize()
    E.check(raw[0] == 0x19 and raw[1] == p.tsn and raw[2:4] == b"\x00\x00" and raw[4] == jitter and len(raw) == 5, "asking devices to query, with the jitter given, or such that fifteen can be expected to answer")
    E.reach("all" if n <= 15 else "shared")


def periodic(E, n):
    """Broadcasts come at their time until stopped."""
    loop = E.loop()
    app = world.make_app()
    first, period = E.int("first", 0, 100), E.int("period", 1, 100)
    times, plan = [], []

    async def notify(*a, **k):
        i = len(times)
        times.append(loop.time())
        how = plan[i]
        if how == "slow":
            import asyncio
            await asyncio.sleep(7)
        if how == "fails":
            raise zigpy.exceptions.DeliveryError("no")

    app.ota.broadcast_notify = notify
    app.ota.stop_periodic_broadcasts()
    app.ota.start_periodic_broadcasts(first, period)
    at = loop.time() + first
    for i in range(n):
        what = E.pick(f"what{i}", ["ok", "fails", "slow", "stop", "restart"])
        if what == "stop":
            app.ota.stop_periodic_broadcasts()
            if E.bool("twice"):
                app.ota.stop_periodic_broadcasts()
            loop.drain()
            E.check(loop.next_timer() is None and len(times) == i, "after it is stopped nothing comes")
            E.reach("stopped")
            return
        if what == "restart":
            app.ota.stop_periodic_broadcasts()
            loop.drain()
            app.ota.start_periodic_broadcasts(3, 11)
            at, period = loop.time() + 3, 11
            E.reach("restarted")
        plan.append("ok" if what == "restart" else what)
        guard = 0
        while len(times) == i and guard < 4:
            guard += 1
            loop.drain()
            if len(times) == i:
                loop.fire_next()
        E.check(len(times) == i + 1 and times[i] == at, "each comes at its time")
        if what == "fails":
            E.reach("failed")
        at = at + period + (7 if what == "slow" else 0)


def units(tier):
    pairs = [("ikea", "sonoff"), ("z2m", "ledvance")] if tier == "quick" else [(a, b) for a in TYPES for b in TYPES if a != b]
    for a, b in pairs:
        for old in (False, True):
            yield f"merge-{a}-{b}-{'old' if old else 'new'}", merge, dict(a=a, b=b, old=old)
    for typ in TYPES:
        yield f"single-{typ}", single, dict(typ=typ)
        if tier == "quick":
            yield f"old-{typ}", merge_one, dict(typ=typ)
    yield "remote", remote, {}
    yield "advanced", advanced, {}
    yield "refused", refused, {}
    yield "defaults", defaults, {}
    for how in ("own", "given"):
        yield f"call-{how}", call, dict(how=how)
    yield "periodic", periodic, dict(n=3 if tier == "quick" else 4)


def merge_one(E, typ):
    """An old-style switch of each type."""
    how = E.pick("old", [True, "on", "https://old/", False, "no"])
    on = how in (True, "on", "https://old/")
    o = make(E, {"providers": [{"type": typ}], TYPES[typ]: how})
    want = [(typ, URLS[typ], IDS[typ]), (typ, "https://old/" if how == "https://old/" else URLS[typ], IDS[typ])] if on else []
    E.check(used(o) == want, "the providers used are those listed, extra and switched on, without those switched off or overridden, in order")
