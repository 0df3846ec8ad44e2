"""Starting, watching and stopping the controller."""

import asyncio
import errno

import zigpy.application
import zigpy.backups
import zigpy.config as conf
import zigpy.exceptions
import zigpy.types as t
from props import world
from props.N02 import simple
from props.N03 import Radio

BOUNDS = ("every combination of a formed network, a previous backup (compatible or not), forming allowed, validation, watchdog; each of the radio's operations failing in 3 ways; 4 failures of the first broadcast; "
          "any backup, scan and broadcast periods; watchdog failures at any of 4 times; shutdown at any of 5 points; probing with up to 3 configurations")
OUTSIDE = "the database (P01); what radio libraries do"
REACH = ["started", "formed", "restored", "not_formed", "inconsistent", "failed", "transient", "broadcast", "no_broadcast", "watchdog", "lost", "shutdown", "disconnect_fails", "probe", "probe_none",
         "names", "endpoints", "new"]


class Ctl(Radio):
    """The radio, with every operation recorded and possibly failing."""

    plan = {}

    def op(self, *call):
        self.calls.append(call)
        exc = self.plan.get(call[0])
        if exc is not None:
            raise exc

    async def connect(self):
        self.op("connect")

    async def disconnect(self):
        self.op("disconnect")

    async def start_network(self):
        self.op("start")
        self.state.node_info.model, self.state.node_info.manufacturer, self.state.node_info.version = "stick", "maker", "7"

    async def load_network_info(self, *, load_devices=False):
        self.op("load")
        if not self.formed:
            raise zigpy.exceptions.NetworkNotFormed
        self.state.network_info, self.state.node_info = self.stored

    async def form_network(self, *, fast=False):
        self.op("form")
        self.formed = True
        self.state.network_info, self.state.node_info = self.stored

    async def permit_ncp(self, time_s=60):
        self.op("permit", time_s)

    async def _watchdog_feed(self):
        self.op("feed")

    async def energy_scan(self, channels, duration_exp, count):
        self.op("scan", list(channels), duration_exp, count)
        return dict(self.scan)


def make(E, updates=None):
    loop = E.loop()
    app = world.make_app(cls=Ctl)
    app.plan = {}
    app._config[conf.CONF_STARTUP_ENERGY_SCAN] = True
    world.add_device(app, ieee=world.NCP, nwk=0)
    b = simple(5)
    app.stored = (b.network_info, b.node_info)
    app.formed = True
    app.periods = []
    E.patch(app.backups, "start_periodic_backups", lambda period: app.periods.append(("backup", period)))
    E.patch(app.topology, "start_periodic_scans", lambda period: app.periods.append(("topology", period)))
    E.patch(app.ota, "start_periodic_broadcasts", lambda initial_delay, interval: app.periods.append(("ota", initial_delay, interval)))
    return loop, app


def ops(app):
    return [c[0] for c in app.calls]


def start(E, formed, backup):
    loop, app = make(E)
    app.formed = formed
    auto, validate, watch, scan = E.bool("auto"), E.bool("validate"), E.bool("watchdog"), E.bool("scan")
    cfg = app.config
    cfg[conf.CONF_NWK_VALIDATE_SETTINGS], cfg[conf.CONF_WATCHDOG_ENABLED], cfg[conf.CONF_STARTUP_ENERGY_SCAN] = validate, watch, scan
    bk, topo, otaon, bc = E.bool("backups"), E.bool("topology"), E.bool("ota"), E.bool("ota_broadcast")
    E.assume(E.any(E.all(bk, topo), E.not_(bk)))
    p1, p2, p3, p4 = E.int("p1", 1, 5000), E.int("p2", 1, 5000), E.int("p3", 0, 50000), E.int("p4", 1, 50000)
    cfg[conf.CONF_NWK_BACKUP_ENABLED], cfg[conf.CONF_NWK_BACKUP_PERIOD] = bk, p1
    cfg[conf.CONF_TOPO_SCAN_ENABLED], cfg[conf.CONF_TOPO_SCAN_PERIOD] = topo, p2
    cfg[conf.CONF_OTA][conf.CONF_OTA_ENABLED], cfg[conf.CONF_OTA][conf.CONF_OTA_BROADCAST_ENABLED] = otaon, bc
    cfg[conf.CONF_OTA][conf.CONF_OTA_BROADCAST_INITIAL_DELAY], cfg[conf.CONF_OTA][conf.CONF_OTA_BROADCAST_INTERVAL] = p3, p4
    compat = True
    if backup:
        pan = E.int("pan", 1, 0xFFFE)
        old = simple(E.bits("tx", 31), pan=t.PanId(pan))
        app.backups.add_backup(old)
        compat = pan == 0x1234
    app.calls.clear()
    task = loop.spawn(app.startup(auto_form=auto))
    E.check(task.done(), "done")
    got = ops(app)
    exc = task.exception()
    head = ["connect"] + (["feed"] if watch else []) + ["load"]
    E.check(got[: len(head)] == head, "the radio is connected, the watchdog fed first, the settings loaded")
    rest = got[len(head):]
    if not formed and not auto:
        E.check(isinstance(exc, zigpy.exceptions.NetworkNotFormed) and rest == ["disconnect"], "without a network starting fails and the radio is let go")
        E.reach("not_formed")
        return
    same = True
    if not formed and not backup:
        E.check(rest[0] == "form", "a new network is formed")
        rest = rest[1:]
        E.reach("formed")
    elif not formed:
        w = [c for c in app.calls if c[0] == "write"]
        E.check(rest[0] == "write" and len(w) == 1, "the latest backup is restored")
        E.check(E.all(w[0][1].pan_id == old.network_info.pan_id, w[0][1].network_key.tx_counter == old.network_info.network_key.tx_counter + 10000), "with its settings and a later counter")
        E.check(rest[1] == "load", "and the settings loaded")
        rest = rest[2:]
        E.reach("restored")
    else:
        same = compat
    if backup and E.concrete(validate) and not E.concrete(bool(same)):
        E.check(isinstance(exc, zigpy.exceptions.NetworkSettingsInconsistent), "different settings are refused when asked to")
        E.check(exc.old_state is old and exc.new_state.network_info.pan_id == 0x1234, "both are told")
        E.check(rest == ["disconnect"], "the radio is let go")
        E.reach("inconsistent")
        return
    E.check(exc is None, "it starts")
    E.check(rest == ["start", "permit"] + (["scan"] if scan else []), "the network is started, joining closed, then channels are scanned")
    E.check([c[1] for c in app.calls if c[0] == "permit"] == [0], "joining is closed")
    E.check(len(app.sent) == 1 and app.sent[0].cluster_id == 0x0036 and app.sent[0].data.serialize()[1:] == b"\x00\x00", "joining is closed on all routers")
    if scan:
        s = [c for c in app.calls if c[0] == "scan"][0]
        E.check(s[1] == list(range(11, 27)), "all channels are scanned")
    exp = []
    if bk:
        exp.append(("backup", p1 * 60))
    if topo:
        exp.append(("topology", p2 * 60))
    if otaon and bc:
        exp.append(("ota", p3, p4))
    E.check(len(app.periods) == len(exp), "what is enabled is started")
    for a, b in zip(app.periods, exp):
        E.check(a[0] == b[0] and E.all(*[x == y for x, y in zip(a[1:], b[1:])]), "with the configured period")
    own = app.devices[world.NCP]
    basic = own.endpoints[1].in_clusters[0]
    E.check((basic.get("manufacturer"), basic.get("model")) == (own.manufacturer, own.model), "our own names are known")
    E.reach("names")
    E.reach("started")


ERRORS = {"os": OSError("x"), "timeout": asyncio.TimeoutError(), "connection": ConnectionResetError("x"), "transient": OSError(errno.ENETUNREACH, "x"), "delivery": zigpy.exceptions.DeliveryError("x")}


def failing(E, op):
    """Whatever fails, the radio is let go and the failure is reported."""
    loop, app = make(E)
    app.config[conf.CONF_WATCHDOG_ENABLED] = True
    kind = E.pick("kind", list(ERRORS))
    app.plan = {op: ERRORS[kind]}
    if E.bool("disconnect_fails"):
        app.plan = {**app.plan, "disconnect": OSError("too")}
        E.reach("disconnect_fails")
    task = loop.spawn(app.startup())
    E.check(task.done(), "done")
    got = ops(app)
    exc = task.exception()
    if kind == "delivery" and op == "permit":
        E.check(isinstance(exc, zigpy.exceptions.DeliveryError), "reported")
    if kind in ("connection", "transient"):
        E.check(isinstance(exc, zigpy.exceptions.TransientConnectionError) and exc.__cause__ is ERRORS[kind], "a passing failure is reported as such")
        E.reach("transient")
    else:
        E.check(exc is ERRORS[kind], "the failure is reported as it is")
    E.check(got[-2:] == [op, "disconnect"] and got.count("disconnect") == 1, "nothing else is tried and the radio is let go")
    app.plan = {}
    n = len(app.calls)
    loop.advance(200)
    E.check(len(app.calls) == n and app.periods == [], "nothing goes on afterwards")
    E.reach("failed")


def first_broadcast(E):
    """Some radios cannot send the first broadcast."""
    loop, app = make(E)
    app.config[conf.CONF_WATCHDOG_ENABLED] = False
    status = E.pick("status", [None, t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE, t.MACStatus.MAC_NO_ACK, 0xE1, 0xE9])
    app.fail = lambda p: zigpy.exceptions.DeliveryError("x", status)
    task = loop.spawn(app.startup())
    E.check(task.done(), "done")
    if status == t.MACStatus.MAC_CHANNEL_ACCESS_FAILURE:
        E.check(task.exception() is None and "disconnect" not in ops(app), "interference is no failure")
        E.reach("no_broadcast")
    else:
        E.check(isinstance(task.exception(), zigpy.exceptions.DeliveryError) and ops(app)[-1] == "disconnect", "other failures are")
        E.reach("broadcast")


def watchdog(E):
    loop, app = make(E)
    app.config[conf.CONF_WATCHDOG_ENABLED] = True
    rec = world.Rec("connection_lost")
    app.add_listener(rec)
    exc = E.pick("exc", [OSError("x"), asyncio.TimeoutError(), ValueError("x")])
    bad, stop = E.choice("bad", 5), E.choice("stop", 6)
    start_at = loop.time()
    task = loop.spawn(app.startup())
    E.check(task.exception() is None, "it starts")
    feeds = lambda: ops(app).count("feed")  # noqa: E731
    E.check(feeds() == 1, "fed at the start")
    for k in range(5):
        if k == stop:
            loop.run(app.shutdown())
            E.check(ops(app)[-1] == "disconnect", "the radio is let go")
            n = feeds()
            loop.advance(100)
            E.check(feeds() == n and rec.events == [], "after shutdown it is not watched")
            E.reach("shutdown")
            return
        if k == bad:
            app.plan = {"feed": exc}
        loop.advance(29)
        E.check(feeds() == 1 + k, "every 30 seconds")
        loop.advance(1)
        E.check(feeds() == 2 + k, "every 30 seconds")
        E.reach("watchdog")
        if k == bad:
            E.check(rec.events == [("connection_lost", exc)], "a failure is announced as a lost connection, once")
            loop.advance(200)
            E.check(feeds() == 2 + k and len(rec.events) == 1, "and watching ends")
            E.reach("lost")
            return
        E.check(rec.events == [], "all is well")


def shutdown(E):
    """Shutdown stops what runs, whether or not the radio can be let go."""
    loop, app = make(E)
    stopped = []
    E.patch(app.backups, "stop_periodic_backups", lambda: stopped.append("backups"))
    E.patch(app.topology, "stop_periodic_scans", lambda: stopped.append("topology"))
    E.patch(app.ota, "stop_periodic_broadcasts", lambda: stopped.append("ota"))

    class Db:
        n = 0

        async def shutdown(self):
            Db.n += 1
            if dbfails:
                raise OSError("db")

    fails, dbfails, hasdb, db = E.bool("fails"), E.bool("dbfails"), E.bool("hasdb"), E.bool("db")
    if hasdb:
        app._dblistener = Db()
        app._add_db_listeners()
    if fails:
        app.plan = {"disconnect": OSError("x")}
    app.calls.clear()
    task = loop.spawn(app.shutdown() if db else app.shutdown(db=False))
    E.check(task.done() and task.exception() is None, "failures do not stop a shutdown")
    E.check(sorted(stopped) == ["backups", "ota", "topology"], "all periodic work is stopped")
    E.check(ops(app) == ["disconnect"], "the radio is let go")
    E.check(Db.n == (1 if hasdb and db else 0), "the database is closed unless it is to stay open")
    E.reach("shutdown")


def probe(E, n):
    """The first configuration that connects is the one."""
    loop = E.loop()
    tried = []
    works = [E.bool(f"works{i}") for i in range(n)]
    dup = E.bool("dup")
    rates = [115200, 57600, 38400]

    class P(Ctl):
        _probe_configs = [{conf.CONF_DEVICE_BAUDRATE: r} for r in rates[1:n]] + ([{conf.CONF_DEVICE_BAUDRATE: rates[0]}] if dup else [])

        async def connect(self):
            i = rates.index(self.config[conf.CONF_DEVICE][conf.CONF_DEVICE_BAUDRATE])
            tried.append(("connect", i))
            if not works[i]:
                raise OSError("no")

        async def disconnect(self):
            tried.append(("disconnect",))

    got = loop.run(P.probe({conf.CONF_DEVICE_PATH: "/dev/x", conf.CONF_DEVICE_BAUDRATE: rates[0]}))
    first = next((i for i in range(n) if works[i]), None)
    last = n if first is None else first + 1
    E.check(tried == [x for i in range(last) for x in (("connect", i), ("disconnect",))], "each configuration is tried once, in order, until one works, and let go")
    if first is None:
        E.check(got is False, "none works")
        E.reach("probe_none")
    else:
        E.check(got[conf.CONF_DEVICE_BAUDRATE] == rates[first] and got[conf.CONF_DEVICE_PATH] == "/dev/x", "the one that works is told")
        E.reach("probe")


def endpoints(E):
    """The endpoints every radio is given."""
    loop, app = make(E)
    extra = E.choice("extra", 3)
    more = [app_ep(E, 200 + i) for i in range(extra)]
    app.config[conf.CONF_ADDITIONAL_ENDPOINTS] = more
    app.calls.clear()
    loop.run(app.register_endpoints())
    eps = [c[1] for c in app.calls if c[0] == "add_endpoint"]
    E.check([int(e.endpoint) for e in eps[:2]] == [1, 2] and [int(e.profile) for e in eps[:2]] == [260, 0xC05E], "a home automation and a light link endpoint")
    E.check(set(eps[0].input_clusters) >= {0, 6, 0x0A, 0x19, 0x501} and set(eps[0].output_clusters) >= {1, 0x20, 0x500, 0x502}, "with the clusters devices look for")
    E.check(len(eps) == 2 + extra and all(a is b for a, b in zip(eps[2:], more)), "and any others that are configured")
    E.reach("endpoints")


def new(E):
    """A controller that is made is started, with what start is asked for, unless asked otherwise."""
    loop = E.loop()
    how = E.pick("how", ["default", "off", "on"])
    auto, formed = E.pick("auto", [None, False, True]), E.bool("formed")
    seen = []

    class New(Ctl):
        def __init__(self, config):
            super().__init__(config)
            b = simple(5)
            self.stored, self.formed = (b.network_info, b.node_info), formed
            self.state.node_info.ieee = world.NCP
            world.add_device(self, ieee=world.NCP, nwk=0)
            seen.append(self)

    cfg = {conf.CONF_DATABASE: None, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}
    kw = ({} if how == "default" else {"start_radio": how == "on"}) | ({} if auto is None else {"auto_form": auto})
    task = loop.spawn(New.new(cfg, **kw))
    loop.drain()
    loop.advance(30)
    app = seen[0]
    E.check(task.done() and len(seen) == 1, "it is made")
    if how == "off":
        E.check(task.result() is app and not app.calls, "nothing is started")
    elif formed or auto:
        E.check(task.exception() is None and task.result() is app and ops(app).count("start") == 1, "it is started")
        E.check(("form" in ops(app)) == (not formed), "forming a network if it may and there is none")
    else:
        E.check(isinstance(task.exception(), zigpy.exceptions.NetworkNotFormed) and "form" not in ops(app) and ops(app)[-1] == "disconnect", "not forming a network if it may not")
    E.reach("new")
    loop.run(app.shutdown())


def app_ep(E, n):
    import zigpy.zdo.types as zdot

    return zdot.SimpleDescriptor(endpoint=n, profile=260, device_type=1, device_version=0, input_clusters=[0], output_clusters=[])


def units(tier):
    for formed in (False, True):
        for backup in (False, True):
            yield f"start-{int(formed)}-{int(backup)}", start, dict(formed=formed, backup=backup)
    for op in ("connect", "feed", "load", "start", "permit", "scan"):
        yield f"failing-{op}", failing, dict(op=op)
    yield "new", new, {}
    yield "first_broadcast", first_broadcast, {}
    yield "watchdog", watchdog, {}
    yield "shutdown", shutdown, {}
    for n in (1, 2, 3):
        yield f"probe-{n}", probe, dict(n=n)
    yield "endpoints", endpoints, {}
