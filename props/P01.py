"""What is remembered across restarts."""

import datetime as real_datetime

import zigpy.appdb as appdb
import zigpy.config as conf
import zigpy.device
import zigpy.endpoint
import zigpy.exceptions
import zigpy.profiles.zha as zha
import zigpy.types as t
import zigpy.util
import zigpy.zcl
import zigpy.zdo.types as zdot
from props import sql as sqlmod
from props import world

BOUNDS = ("two devices of two endpoints (one with a quirk that adds an endpoint and clusters), histories of 2 and 3 (thorough 3 and 4) of: initializing, being interviewed again with other answers, joining under any new short "
          "address, being seen, attribute values (any 32 bits, texts, bytes, numbers), cleared and unsupported attributes, source routes, neighbor and route tables of up to 2 "
          "entries, removal, groups and members, backups; any times up to 100 s apart; events stored at once or when the application stops; a crash before, or an error of, each of 24 "
          "database operations in 8 sequences of 3 events; a crash before each operation that creates a database")
OUTSIDE = ("the clock going back; devices that never were initialized; two backups of the same time; the order of rows; tables of devices that are not stored yet; the thread of aiosqlite and "
           "SQLite itself, which a model of the statements used stands for, compared with SQLite in each sample that is replayed")
REACH = ["partly", "init", "init b", "rejoin", "seen", "relays", "no relays", "remove", "neighbors", "routes", "group", "no group", "member", "no member", "set", "clear", "unsupported", "supported",
         "backup", "crashed", "survived", "fault", "unborn", "inactive", "quirk", "again", "members", "less"]

A, B = world.IEEES[0], world.IEEES[1]
DB = "/scratch.db"


class Time:
    """A time with a symbolic number of seconds."""

    def __init__(self, s):
        self.s = s

    def timestamp(self):
        return self.s


class Clock:
    """Stands for the class datetime; time passes as the harness says."""

    now_s = 1
    strptime = staticmethod(real_datetime.datetime.strptime)
    fromisoformat = staticmethod(real_datetime.datetime.fromisoformat)

    @classmethod
    def now(cls, tz=None):
        return Time(cls.now_s)

    utcnow = now

    @classmethod
    def fromtimestamp(cls, s, tz=None):
        return Time(s)


def config():
    return {conf.CONF_DATABASE: DB, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}


class Home:
    """One installation: its database, and the application that is running."""

    def __init__(self, E):
        self.E = E
        self.loop = E.loop()
        self.sql = sqlmod.Sql(E)
        Clock.now_s = 1
        for m in (appdb, zigpy.device, zigpy.zcl):
            E.patch(m, "datetime", Clock)
        E.patch(zigpy.device.Device, "schedule_group_membership_scan", lambda s: None)
        self.app = None

    def start(self):
        self.app = self.loop.run(world.App.new(config(), start_radio=False))
        self.app.fail = lambda p: zigpy.exceptions.DeliveryError("nobody there")
        return self.app

    def stop(self):
        self.loop.run(self.app.shutdown())

    def restart(self, drain=True):
        """(what was known, what is known after a restart)"""
        if drain:
            self.loop.drain()
        before = view(self.app)
        self.stop()
        self.start()
        return before, view(self.app)

    def crash(self):
        for c in list(self.sql.conns):
            self.sql.crash(c)
        self.loop.drain()


def view(app):
    devs = {}
    for ieee, d in app.devices.items():
        if not d.is_initialized:
            continue
        eps = {}
        for i, ep in d.endpoints.items():
            if i == 0:
                continue
            cl = {}
            for side, cs in (("in", ep.in_clusters), ("out", ep.out_clusters)):
                for cid, c in cs.items():
                    cl[side, cid] = dict(
                        attrs=dict(c._attr_cache), times={k: c._attr_last_updated[k].timestamp() for k in c._attr_cache},
                        unsupported=sorted(map(str, c.unsupported_attributes)))
            eps[i] = dict(profile=ep.profile_id, type=ep.device_type, status=ep.status, clusters=cl)
        devs[ieee] = dict(nwk=d.nwk, status=d.status, seen=d.last_seen, manufacturer=d.manufacturer, model=d.model, initialized=d.is_initialized,
                          node_desc=None if d.node_desc is None else d.node_desc.as_tuple(), endpoints=eps,
                          relays=None if d.relays is None else list(zigpy.util.filter_relays(d.relays)))
    return dict(
        devices=devs,
        groups={gid: dict(name=g.name, members=sorted((ep.device.ieee, ep.endpoint_id) for ep in g.values() if ep.device.ieee in devs)) for gid, g in app.groups.items()},
        neighbors={i: [n.as_tuple() for n in ns] for i, ns in app.topology.neighbors.items() if ns and i in devs},
        routes={i: [n.as_tuple() for n in ns] for i, ns in app.topology.routes.items() if ns and i in devs},
        backups=[b.as_dict() for b in app.backups.backups],
        stray=sorted({i for m in (app.topology.neighbors, app.topology.routes) for i, ns in m.items() if ns and i not in app.devices}),
    )


def conds(E, a, b, path=()):
    """What has to be true for them to be the same; times may lag."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(sorted(map(str, a))) != list(sorted(map(str, b))):
            return [(path, False)]
        out = []
        for k in a:
            if k in ("seen", "stray"):
                continue
            if k == "times":
                for x in a[k]:
                    if x in b[k]:
                        out.append(((*path, k, x), lag(E, a[k][x], b[k][x])))
                continue
            out.extend(conds(E, a[k], b[k], (*path, k)))
        if "seen" in a:
            x, y = a["seen"], b["seen"]
            out.append(((*path, "seen"), x is None and y is None if x is None or y is None else lag(E, x, y)))
        return out
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return [(path, False)]
        return [c for i, (x, y) in enumerate(zip(a, b)) for c in conds(E, x, y, (*path, i))]
    if a is None or b is None:
        return [(path, a is None and b is None)]
    return [(path, a == b)]


def lag(E, x, y):
    return E.all(x - y <= 30, y <= x)


def same_view(E, a, b, message):
    cs = conds(E, a, b)
    for path, c in cs:
        if c is False:
            E.check(False, f"{message}: {path}")
    E.check(E.all(*[c for _, c in cs]), message)


class Life:
    """Things that happen to an installation."""

    def __init__(self, E, home):
        self.E, self.home, self.app = E, home, home.app
        self.n = 0

    def tick(self, hi=100):
        self.n += 1
        Clock.now_s = Clock.now_s + self.E.int(f"passed{self.n}", 0, hi)

    def dev(self, ieee=A):
        return self.app.devices.get(ieee)

    def init(self, ieee=A, nwk=0x1234, eps=(1, 2), model=True, inactive=False):
        self.tick()
        dev = self.app.devices.get(ieee)
        if dev is None:
            dev = world.add_device(self.app, ieee=ieee, nwk=nwk, endpoints=eps, ins=(0, 6), outs=(6, 0x19))
            dev.model = dev.manufacturer = None
            if inactive:
                ep = dev.add_endpoint(7)
                ep.status = zigpy.endpoint.Status.ENDPOINT_INACTIVE
            dev.status = zigpy.device.Status.ENDPOINTS_INIT
            dev.last_seen = Clock.now()
            if model:
                b = dev.endpoints[eps[0]].in_clusters[0]
                dev.manufacturer, dev.model = "maker", "thing"
                b.update_attribute(4, "maker")
                b.update_attribute(5, "thing")
        self.app.device_initialized(dev)
        return self.app.devices[ieee]

    def attr(self, cluster, attr, value):
        self.tick()
        cluster.update_attribute(attr, value)


def attributes(E, n, kinds, prior=False):
    """Attribute values, cleared ones and unsupported ones."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    dev = life.init()
    clusters = [dev.endpoints[1].in_clusters[6], dev.endpoints[1].out_clusters[6], dev.endpoints[2].in_clusters[6]]
    settle = E.pick("settle", [True, False])
    if prior:  # all have something to lose
        for k, c in enumerate(clusters):
            if "set" in kinds:
                c.update_attribute(0x4000, k)
                c.update_attribute(0x4001, k)
            else:
                c.add_unsupported_attribute(0x4000)
                c.add_unsupported_attribute(0xFF01)
    for i in range(n):
        if settle:
            home.loop.drain()
        what = E.pick(f"what{i}", kinds)
        c = clusters[E.choice(f"cluster{i}", 3)] if prior else clusters[E.choice(f"cluster{i}", 2)] if what in ("set", "clear") else clusters[2 * E.choice(f"cluster{i}", 2)]
        if what == "set":
            life.attr(c, 0x4000, E.bits(f"value{i}", 32))
        elif what == "text":
            life.attr(c, 0x4000, E.pick(f"text{i}", ["", "text", b"", b"text", 1.5, True, -1, (1 << 63) - 1]))
        elif what == "clear":
            life.attr(c, 0x4000, None)
        elif what == "unsupported":
            c.add_unsupported_attribute(E.pick(f"attr{i}", [0x4000, 0xFF01]))
        else:
            c.remove_unsupported_attribute(E.pick(f"attr{i}", [0x4000, 0xFF01]))
    same_view(E, *home.restart(settle), "attributes are the same after a restart")




def backup(counter, seconds, pan=0x1234):
    import zigpy.backups
    import zigpy.state

    key = zigpy.state.Key(key=t.KeyData(b"\x01" * 16), seq=0, tx_counter=counter)
    return zigpy.backups.NetworkBackup(
        backup_time=world.NOW + real_datetime.timedelta(seconds=seconds),
        network_info=zigpy.state.NetworkInfo(extended_pan_id=t.ExtendedPanId.convert("01:02:03:04:05:06:07:08"), pan_id=t.PanId(pan), nwk_update_id=0, nwk_manager_id=t.NWK(0),
                                             channel=15, channel_mask=t.Channels.ALL_CHANNELS, security_level=5, network_key=key,
                                             tc_link_key=zigpy.state.Key(key=t.KeyData(b"\x02" * 16), partner_ieee=world.NCP), source="x", metadata={}),
        node_info=zigpy.state.NodeInfo(nwk=t.NWK(0), ieee=world.NCP, logical_type=zdot.LogicalType.Coordinator))


def neighbor(E, tag, ieee=B):
    return zdot.Neighbor(
        extended_pan_id=t.ExtendedPanId.convert("01:02:03:04:05:06:07:08"), ieee=ieee, nwk=t.NWK(E.bits(tag + "nwk", 16)), device_type=zdot.Neighbor.DeviceType.Router,
        rx_on_when_idle=zdot.Neighbor.RxOnWhenIdle.On, relationship=zdot.Neighbor.RelationShip.Sibling, reserved1=0, permit_joining=zdot.Neighbor.PermitJoins.Unknown,
        reserved2=0, depth=t.uint8_t(E.bits(tag + "depth", 8)), lqi=t.uint8_t(E.bits(tag + "lqi", 8)))


def route(E, tag):
    return zdot.Route(DstNWK=t.NWK(E.bits(tag + "dst", 16)), RouteStatus=zdot.RouteStatus.Active, MemoryConstrained=E.bits(tag + "mc", 1), ManyToOne=0, RouteRecordRequired=1, Reserved=0,
                      NextHop=t.NWK(E.bits(tag + "hop", 16)))


class Fixed:
    """Details that do not matter."""

    def __init__(self, E, i):
        self.E, self.i = E, i

    def pick(self, name, seq):
        return seq[0]

    def choice(self, name, n):
        return n - 1 if "count" in name else 0

    def __getattr__(self, name):
        return getattr(self.E, name)


def act(E, home, life, i, kinds, fixed=False):
    """One thing happens."""
    app = home.app
    what = E.pick(f"what{i}", kinds)
    if fixed:
        E = Fixed(E, i)
    E.reach(what)
    a = life.dev()
    if what == "init":
        life.init()
    elif what == "init b":
        life.init(B, 0x4321, eps=(1,))
    elif what == "again":  # interviewed again, with other answers
        if a is not None:
            life.tick()
            a.node_desc = zdot.NodeDescriptor(2, 1, 1, 5, 3, 2, 0x41, 0x4321, 91, 92, 93, 94, 3)
            ep = a.endpoints[1]
            ep.profile_id, ep.device_type = E.pick(f"profile{i}", [(260, zha.DeviceType.DIMMABLE_LIGHT), (0, 0x1234), (0xC05E, 0)])
            ep.status = E.pick(f"status{i}", [zigpy.endpoint.Status.ZDO_INIT, zigpy.endpoint.Status.NEW])
            a.status = E.pick(f"state{i}", [zigpy.device.Status.ZDO_INIT, zigpy.device.Status.ENDPOINTS_INIT])
            app.device_initialized(a)
    elif what == "members":
        for ep in a.non_zdo_endpoints:
            app.groups[1].add_member(ep)
    elif what == "rejoin":
        life.tick()
        app.handle_join(t.NWK(E.int(f"nwk{i}", 1, 0xFFF7)), A, t.NWK(0))
    elif what == "seen":
        if a is not None:
            life.tick()
            a.last_seen = Clock.now()
    elif what == "relays":
        if a is not None:
            a.relays = t.Relays([t.NWK(E.bits(f"relay{i}", 16)), t.NWK(0x1111)][: 1 + E.choice(f"relays{i}", 2)])
    elif what == "no relays":
        if a is not None:
            a.relays = None
    elif what == "remove":
        if a is not None:
            home.loop.run(app.remove(A))
            home.loop.advance(60)
    elif what == "neighbors":
        ieee = E.pick(f"of{i}", [A, B])
        if ieee not in app.devices:
            return
        app.topology.neighbors[ieee] = [neighbor(E, f"n{i}{k}") for k in range(E.choice(f"count{i}", 3))]
        app.topology.listener_event("neighbors_updated", ieee, app.topology.neighbors[ieee])
    elif what == "routes":
        ieee = E.pick(f"of{i}", [A, B])
        if ieee not in app.devices:
            return
        app.topology.routes[ieee] = [route(E, f"r{i}{k}") for k in range(E.choice(f"count{i}", 3))]
        app.topology.listener_event("routes_updated", ieee, app.topology.routes[ieee])
    elif what == "group":
        app.groups.add_group(E.pick(f"group{i}", [1, 2]), E.pick(f"name{i}", ["name", None]))
    elif what == "no group":
        app.groups.pop(E.pick(f"group{i}", [1, 2]), None)
    elif what in ("member", "no member"):
        g = app.groups.get(E.pick(f"group{i}", [1, 2]))
        if g is not None and a is not None:
            ep = a.endpoints[1 + E.choice(f"ep{i}", 2)]
            if what == "member":
                g.add_member(ep)
            elif ep.unique_id in g:
                g.remove_member(ep)
    elif what == "set":
        if a is not None:
            life.attr(a.endpoints[1].in_clusters[6], 0x4000, E.bits(f"value{i}", 16))
    elif what == "clear":
        if a is not None:
            life.attr(a.endpoints[1].in_clusters[6], 0x4000, None)
    elif what == "unsupported":
        if a is not None:
            a.endpoints[1].in_clusters[6].add_unsupported_attribute(0x4000)
    elif what == "supported":
        if a is not None:
            a.endpoints[1].in_clusters[6].remove_unsupported_attribute(0x4000)
    elif what == "backup":
        app.backups.add_backup(backup(E.pick(f"counter{i}", [1, 2]), i, E.pick(f"pan{i}", [0x1234, 0x1235])))


def history(E, n, kinds, first=("init",)):
    """Whatever happened, it is known after a restart."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    for i, f in enumerate(first):
        act(E, home, life, f"first{i}", [f], True)
    settle = E.pick("settle", [True, False])
    for i in range(n):
        if settle:
            home.loop.drain()
        act(E, home, life, i, kinds)
    before, after = home.restart(settle)
    same_view(E, before, after, "the same is known after a restart")
    E.check(not after["stray"], "nothing is left of devices that are gone")
    E.check(not home.loop.errors, "no errors")


def partly(E):
    """The address of a device of which not all is known yet."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    dev = life.init()
    ep = dev.endpoints[1]
    ep.status, ep.profile_id, ep.device_type = zigpy.endpoint.Status.NEW, None, None
    home.app.device_initialized(dev)
    home.loop.drain()
    act(E, home, life, 0, ["rejoin"])
    home.loop.advance(E.pick("later", [0, 10]))
    nwk = dev.nwk
    home.restart(E.pick("settle", [True, False]))
    dev = home.app.devices[A]
    E.check(E.all(dev.nwk == nwk, not dev.is_initialized), "the address of a device that could not be interviewed")
    E.check(home.app.get_device(nwk=nwk) is dev, "the device with that address")
    E.check(E.all(dev.endpoints[1].status == zigpy.endpoint.Status.NEW, dev.endpoints[1].profile_id is None, dev.endpoints[1].device_type is None), "and what is not known of it")
    E.reach("partly")


def durable(E, kinds):
    """What has been stored survives the end of the process, however little came after it."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    for i, f in enumerate(("init", "init b", "group", "member", "set", "unsupported", "relays", "neighbors", "routes")):
        act(E, home, life, f"first{i}", [f], True)
    home.loop.drain()
    act(E, home, life, 0, kinds, True)
    home.loop.drain()
    before = view(home.app)
    home.crash()
    home.start()
    same_view(E, before, view(home.app), "what happened is known after the process ended at any later moment")


def crash(E, kinds, first=("init",)):
    """The process ends at any moment."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    for i, f in enumerate(first):
        act(E, home, life, f"first{i}", [f], True)
    home.loop.drain()
    at = E.choice("at", 24)
    home.sql.count = 0

    def hook(conn, what, a):
        if home.sql.count >= at:
            E.reach("crashed")
            home.sql.crash(conn)
            raise sqlmod.Crash

    home.sql.hook = hook
    states = [view(home.app)]
    for i, kind in enumerate(kinds):
        act(E, home, life, i, [kind], True)
        home.loop.drain()
        states.append(view(home.app))
        if home.sql.dead:
            break
    else:
        E.reach("survived")
        home.crash()
    died = bool(home.sql.dead) and len(states) > 1
    home.sql.hook = None
    home.start()
    after = view(home.app)
    E.check(not after["stray"], "nothing is left of devices that are gone")
    options = states[-2:] if died and home.sql.count is not None else states[-1:]
    E.check(E.any(*[E.all(*[c for _, c in conds(E, o, after)]) for o in options]), "after a crash what happened last is known or not, and all before")
    Life(E, home).init(world.IEEES[2], 0x7777)
    same_view(E, *home.restart(), "the database is of use after a crash")


def fault(E, kinds, first=("init",)):
    """One operation on the database fails."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    for i, f in enumerate(first):
        act(E, home, life, f"first{i}", [f], True)
    home.loop.drain()
    at = E.choice("at", 24)
    home.sql.count = 0
    hit = []

    def hook(conn, what, a):
        if home.sql.count == at and not hit and what != "rollback":
            hit.append(what)
            E.reach("fault")
            raise appdb.sqlite3.OperationalError("disk I/O error")

    home.sql.hook = hook
    undo = None
    for i, kind in enumerate(kinds):
        before = view(home.app)
        act(E, home, life, i, [kind], True)
        home.loop.drain()
        if hit:
            after = view(home.app)
            home.sql.hook = None
            # what is stored is the state before or after
            disk = peek(E, home)
            a = E.all(*[c for _, c in conds(E, after, disk)])
            b = E.all(*[c for _, c in conds(E, before, disk)])
            E.check(E.any(a, b), "what cannot be stored completely is not stored at all")
            break
    else:
        home.sql.hook = None
    dev = Life(E, home).init(world.IEEES[2], 0x7777)
    home.loop.drain()
    disk = peek(E, home)
    if hit:
        a = E.all(*[c for _, c in conds(E, added(after, home.app), disk)])
        b = E.all(*[c for _, c in conds(E, added(before, home.app), disk)])
        E.check(E.any(a, b), "a failure does not affect what follows")
    else:
        same_view(E, view(home.app), disk, "all is stored")


def added(state, app):
    """The state, with the device that came last."""
    devs = dict(state["devices"])
    devs[world.IEEES[2]] = view(app)["devices"][world.IEEES[2]]
    return dict(state, devices=devs)


def peek(E, home):
    """What another process would read now."""
    app = home.loop.run(world.App.new(config(), start_radio=False))
    v = view(app)
    home.loop.run(app.shutdown())
    return v


def creation(E):
    """The process ends while it creates the database."""
    home = Home(E)
    at = E.choice("at", 64)

    def hook(conn, what, a):
        if home.sql.count >= at:
            E.reach("unborn")
            home.sql.crash(conn)
            raise sqlmod.Crash

    home.sql.hook = hook
    try:
        home.start()
    except Exception:  # noqa: BLE001
        if not home.sql.dead:
            raise
    home.crash()
    home.sql.hook = None
    home.start()
    life = Life(E, home)
    life.init()
    same_view(E, *home.restart(), "a database that was being created is of use")
    E.check(home.app.devices[A].is_initialized, "and keeps devices")


UNSTORABLE = [float("nan"), 1 << 63, [1, 2], (1 << 64) - 1]


def odd(E):
    """Values that cannot be stored and endpoints without descriptors do not keep the rest from being stored."""
    home = Home(E)
    home.start()
    life = Life(E, home)
    value = E.pick("value", [None, *UNSTORABLE])
    inactive = E.bool("inactive")
    stored = E.bool("stored")
    inactive = E.concrete(inactive)
    stored = E.concrete(stored)
    dev = home.app.devices.get(A)
    dev = world.add_device(home.app, ieee=A, nwk=0x1234, endpoints=(1, 2), ins=(0, 6), outs=(6, 0x19))
    dev.status = zigpy.device.Status.ENDPOINTS_INIT
    dev.last_seen = Clock.now()
    dev.endpoints[2].in_clusters[6].update_attribute(0x4001, 5)
    for k in range(12):
        dev.endpoints[2].add_input_cluster(0xFD00 + k)
    if inactive:
        E.reach("inactive")
        dev.add_endpoint(7).status = zigpy.endpoint.Status.ENDPOINT_INACTIVE
    c = dev.endpoints[1].in_clusters[0]
    c.update_attribute(4, "maker")
    c.update_attribute(5, "thing")
    dev.manufacturer, dev.model = "maker", "thing"
    if stored:
        home.app.device_initialized(dev)
        home.loop.drain()
    if value is not None:
        dev.endpoints[1].in_clusters[6].update_attribute(0x4000, value)
    dev.endpoints[1].in_clusters[6].update_attribute(0x4001, E.bits("other", 16))
    home.app.device_initialized(dev)
    before, after = home.restart()
    if value is not None:
        got = home.app.devices[A].endpoints[1].in_clusters[6].get(0x4000)
        for v in (before, after):
            for k in ("attrs", "times"):
                v["devices"][A]["endpoints"][1]["clusters"]["in", 6][k].pop(0x4000, None)
    same_view(E, before, after, "everything else is stored")
    if value is not None:
        E.reach("unstorable")
        E.check(repr(got) == repr(value), "every value is stored", known=("F43", True))


def custom(E):
    """A device whose quirk adds an endpoint and a cluster: what it caches is remembered."""
    import zigpy.quirks
    import zigpy.quirks.registry

    registry = zigpy.quirks.registry.DeviceRegistry()
    E.patch(zigpy.quirks, "_DEVICE_REGISTRY", registry)

    class Virtual(zigpy.quirks.CustomCluster):
        cluster_id = 0xFC99
        attributes = {0x0001: ("one", t.uint32_t)}

    class Quirk(zigpy.quirks.CustomDevice):
        signature = {
            "models_info": [("maker", "thing")],
            "endpoints": {1: {"profile_id": 260, "device_type": zha.DeviceType.ON_OFF_LIGHT, "input_clusters": [0, 6], "output_clusters": [6, 0x19]}},
        }
        replacement = {"endpoints": {1: {"profile_id": 260, "device_type": zha.DeviceType.ON_OFF_LIGHT, "input_clusters": [0, 6, Virtual], "output_clusters": [6, 0x19]},
                                     2: {"profile_id": 260, "device_type": zha.DeviceType.ON_OFF_LIGHT, "input_clusters": [Virtual], "output_clusters": []}}}

    if E.bool("renames"):  # what a quirk gives stays given
        Quirk.replacement.update(manufacturer="Maker", model="Thing", node_desc=world.node_desc(end_device=True))
        Quirk.replacement["endpoints"][1]["device_type"] = zha.DeviceType.DIMMABLE_LIGHT
    registry.add_to_registry(Quirk)
    home = Home(E)
    home.start()
    life = Life(E, home)
    dev = life.init(eps=(1,))
    E.check(isinstance(dev, Quirk), "the quirk applies")
    home.loop.drain()
    for i in range(2):
        ep = E.pick(f"ep{i}", [1, 2])
        life.attr(dev.endpoints[ep].in_clusters[0xFC99], 1, E.bits(f"value{i}", 32))
        life.attr(dev.endpoints[1].in_clusters[6], 0, E.bits(f"on{i}", 1))
    if E.concrete(E.bool("again")):
        home.loop.drain()
        home.app.device_initialized(dev)
    if E.concrete(E.bool("other quirk")):  # which knows less of the device
        class Less(zigpy.quirks.CustomDevice):
            signature = Quirk.signature
            replacement = {"endpoints": {1: {"profile_id": 260, "device_type": zha.DeviceType.ON_OFF_LIGHT, "input_clusters": [0], "output_clusters": [6]}}}

        life.attr(dev.endpoints[1].out_clusters[6], 1, E.bits("value", 32))
        home.loop.drain()
        stored = view(home.app)
        registry.remove(Quirk)
        registry.add_to_registry(Less)
        before, after = home.restart()
        E.check(isinstance(home.app.devices[A], Less), "the quirk applies after a restart")
        E.check(stored["devices"][A]["endpoints"][1]["clusters"]["out", 6]["attrs"] == after["devices"][A]["endpoints"][1]["clusters"]["out", 6]["attrs"], "values of clusters a quirk keeps are remembered")
        E.reach("less")
        return
    before, after = home.restart()
    E.check(isinstance(home.app.devices[A], Quirk), "the quirk applies after a restart")
    for v in (before, after):
        del v["devices"][A]["endpoints"][1]["clusters"]["in", 0]
    same_view(E, before, after, "values of devices with quirks are remembered")
    E.reach("quirk")


def units(tier):
    q = tier == "quick"
    yield "attributes", attributes, dict(n=3 if q else 4, kinds=["set", "clear"])
    yield "unsupported", attributes, dict(n=2 if q else 3, kinds=["unsupported", "supported"])
    yield "attributes-all", attributes, dict(n=2, kinds=["set", "clear"], prior=True)
    yield "unsupported-all", attributes, dict(n=1 if q else 2, kinds=["unsupported", "supported"], prior=True)
    yield "values", attributes, dict(n=2, kinds=["text", "set"])
    yield "again", history, dict(n=1 if q else 2, kinds=["again"])
    yield "partly", partly, {}
    yield "members", history, dict(n=1 if q else 2, kinds=["no group", "no member", "remove"], first=("init", "group", "members"))
    yield "device", history, dict(n=2 if q else 3, kinds=["init", "rejoin", "seen", "relays", "no relays", "remove"])
    yield "tables", history, dict(n=2 if q else 3, kinds=["neighbors", "routes", "remove", "init b"])
    yield "groups", history, dict(n=2 if q else 3, kinds=["group", "no group", "member", "no member", "remove"], first=("init", "group"))
    yield "backups", history, dict(n=3, kinds=["backup"], first=())
    yield "mixed", history, dict(n=2, kinds=["init", "rejoin", "remove", "set", "clear", "unsupported", "supported", "member", "routes"], first=("init", "group", "set", "unsupported"))
    for i, kinds in enumerate((["init", "set", "relays"], ["neighbors", "set", "neighbors"], ["routes", "remove"], ["group", "no group", "seen"], ["group", "member", "no member"], ["unsupported", "clear", "backup"], ["relays", "no relays", "supported"], ["neighbors", "routes", "remove"])):
        yield f"crash{i}", crash, dict(kinds=kinds, first=() if not i else ("init", "init b", "set", "relays", "neighbors", "routes"))
        yield f"fault{i}", fault, dict(kinds=kinds, first=() if not i else ("init", "init b", "set", "relays", "neighbors", "routes"))
    for i, kinds in enumerate((["init", "again", "rejoin", "seen"], ["relays", "no relays", "remove"], ["neighbors", "routes", "backup"], ["group", "no group", "member", "no member"], ["set", "clear", "unsupported", "supported"])):
        yield f"durable{i}", durable, dict(kinds=kinds)
    yield "creation", creation, {}
    yield "odd", odd, {}
    yield "custom", custom, {}
