"""Finding out what a new device is."""

import zigpy.endpoint
import zigpy.exceptions
import zigpy.types as t
from props import world
from props.common import le

BOUNDS = ("devices with up to 2 endpoints of any number, profile and type, any clusters out of known and unknown ones; every state of prior knowledge; up to 2 "
          "failures (1 with two endpoints; thorough 3 and 2) of any kind at any steps, or one step failing always; initialization begun anew at any step before the model is read")
OUTSIDE = "devices with more endpoints; quirks (D05); frames of the device other than its answers; joining again while the model is read"
REACH = ["ok", "failed", "retried", "inactive", "no_endpoints", "zdo_endpoint", "timeout", "refused", "garbled", "delivery", "split_model", "unsupported_model",
         "no_basic", "known_node", "known_endpoints", "known_all", "second_basic", "zll", "default_rsp", "slow", "again"]

FAILURES = ["timeout", "refused", "garbled", "delivery"]


class Failed(Exception):
    pass


class Again(Exception):
    pass


class Spec:
    """What initialization is supposed to do, request by request.

    Drives the real device: `see` is handed each packet sent and says how it fares.
    """

    def __init__(self, eps, answers, known):
        self.eps, self.answers, self.cache = eps, answers, {}
        self.node = "node" in known
        self.listed = "endpoints" in known
        self.described = set(eps) if "described" in known else set()
        self.inactive = set()
        self.model = self.manufacturer = None
        self.failures = 0
        self.outcome = None
        self.gen = self.run()
        self.want = None
        self.advance(None)

    def advance(self, how):
        try:
            self.want = self.gen.send(how)
        except StopIteration:
            self.want = None

    def run(self):
        tries = 5
        while tries:
            try:
                yield from self.attempt()
            except Failed:
                self.failures += 1
                tries -= 1
                continue
            except Again:
                tries = 5
                continue
            self.outcome = "ok"
            return
        self.outcome = "failed"

    def ask(self, what, *args):
        how = yield (what, *args)
        if how in FAILURES:
            raise Failed
        if how == "again":
            raise Again
        return how

    def attempt(self):
        if not self.node:
            yield from self.ask("node")
            self.node = True
        if not self.listed or not self.eps:
            yield from self.ask("list")
            self.listed = True
        for ep in self.eps:
            if ep in self.described or ep in self.inactive:
                continue
            how = yield from self.ask("describe", ep)
            if how == "inactive":
                self.inactive.add(ep)
            else:
                self.described.add(ep)
        for ep in self.eps:
            if self.model is not None and self.manufacturer is not None:
                return
            if ep not in self.described or not self.answers["basic"][ep]:
                continue
            have = self.cache.setdefault(ep, {})
            for names in ((4, 5), (4,), (5,)):
                need = [n for n in names if n not in have]
                if need:
                    how = yield ("read", ep, need)
                    if how == "timeout" and len(names) == 2:
                        continue
                    if how in FAILURES:
                        raise Failed
                    if how == "again":
                        raise Again
                    if how == "default_rsp":
                        continue
                    for n in need:
                        have[n] = self.answers["attrs"][ep][n]
            self.manufacturer = have.get(4) if have.get(4) is not None else self.manufacturer
            self.model = have.get(5) if have.get(5) is not None else self.model


def drive(E, nep, known, max_failures, always, basics, attrs, zdo_ep=False, restart=False):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    rec = world.Rec("device_initialized", "device_init_failure", "raw_device_initialized")
    app.add_listener(rec)
    dev = app.add_device(world.IEEES[0], t.NWK(0x1234))
    end_device = E.bool("end_device")
    mcode = E.bits("mcode", 16)
    node = bytes([2 if end_device else 1, 0x40, 0x8E]) + le(E, mcode, 2) + bytes([82, 82, 0, 0, 0, 82, 0, 0])
    eps, last = [], 0
    for i in range(nep):
        last = E.int("ep", 1, 240)
        if i:
            E.assume(eps[0] != last)
        eps.append(last)
    profs = [E.pick("profile", [0x0104, 0xC05E, -1, 0]) if i == 0 else 0x0104 for i in range(nep)]
    profs = [E.int("profile", 0xC060, 0xFFFF) if p == -1 else p for p in profs]
    if 0xC05E in profs:
        E.reach("zll")
    types = [E.bits("type", 16) for _ in range(nep)]
    unknown = E.int("cluster", 0xFE00, 0xFEFF)
    ins = [([0x0000] if basics[i] else []) + [0x0006, unknown] for i in range(nep)]
    outs = [[0x0019] for _ in range(nep)]
    names = {n: v for n, v in zip((4, 5), ("Maker", "Thing"))}
    answers = dict(basic=dict(enumerate(basics)), attrs={i: {n: x if isinstance(x, str) else names[n] if x else None for n, x in zip((4, 5), attrs[i])} for i in range(nep)})
    if "node" in known:
        dev.node_desc = world.node_desc(end_device)
        E.reach("known_node")
    if "endpoints" in known:
        for e in eps:
            dev.add_endpoint(e)
        E.reach("known_endpoints")
    if "described" in known:
        for i, e in enumerate(eps):
            ep = dev.endpoints[e]
            ep.profile_id, ep.device_type = profs[i], types[i]
            for c in ins[i]:
                ep.add_input_cluster(c)
            for c in outs[i]:
                ep.add_output_cluster(c)
    spec = Spec(list(range(nep)), answers, known)

    def see(p):
        want = spec.want
        E.check(want is not None, "a request that is not needed")
        data = p.data.serialize()
        tsn = p.tsn
        what = want[0]
        E.check(p.dst.address == dev.nwk, "asked of the device")
        if what == "node":
            good = p.cluster_id == 0x0002 and p.profile_id == 0
            E.check(good, "the node descriptor is asked for, unless known, first")
            E.check(data[1:] == b"\x34\x12", "of the device")
            kind = dict(ok=b"\x00\x34\x12" + node, refused=b"\x81\x34\x12" + node, garbled=b"\x00\x34\x12" + node[:5])
            rsp, ends = 0x8002, ["ok"]
        elif what == "list":
            E.check(p.cluster_id == 0x0005 and p.profile_id == 0, "the endpoints are asked for, unless known, next")
            ids = b"".join([le(E, e, 1) for e in eps])
            if zdo_ep:
                ids = b"\x00" + ids
                E.reach("zdo_endpoint")
            kind = dict(ok=b"\x00\x34\x12" + bytes([nep + zdo_ep]) + ids, refused=b"\x80\x34\x12\x00", garbled=b"\x00\x34\x12" + bytes([nep + 3]) + ids)
            rsp, ends = 0x8005, ["ok"]
            if not nep:
                E.reach("no_endpoints")
        elif what == "describe":
            i = want[1]
            E.check(p.cluster_id == 0x0004 and p.profile_id == 0, "each endpoint is asked for what it does, unless known")
            E.check(data[1:] == b"\x34\x12" + le(E, eps[i], 1), "in turn")
            sd = le(E, eps[i], 1) + le(E, profs[i], 2) + le(E, types[i], 2) + b"\x01" + bytes([len(ins[i])]) + b"".join([le(E, c, 2) for c in ins[i]]) \
                + bytes([len(outs[i])]) + b"".join([le(E, c, 2) for c in outs[i]])
            kind = dict(ok=b"\x00\x34\x12" + bytes([len(sd)]) + sd, inactive=b"\x83\x34\x12\x00", refused=b"\x82\x34\x12\x00",
                        garbled=b"\x00\x34\x12" + bytes([len(sd)]) + sd[:6])
            rsp, ends = 0x8004, ["ok"] if not basics[i] else ["ok", "inactive"]
        else:
            i, need = want[1], want[2]
            E.check(p.cluster_id == 0 and p.dst_ep == eps[i] and data[2] == 0, "the model and manufacturer are read, unless known")
            E.check(data[3:] == b"".join([le(E, n, 2) for n in need]), "those not known yet")
            body = b""
            for n in need:
                v = answers["attrs"][i][n]
                body += le(E, n, 2) + (b"\x86" if v is None else b"\x00\x42" + bytes([len(v)]) + v.encode())
                if v is None:
                    E.reach("unsupported_model")
            kind = dict(ok=b"\x18" + le(E, tsn, 1) + b"\x01" + body, garbled=b"\x18" + le(E, tsn, 1) + b"\x01" + body[:2], default_rsp=b"\x18" + le(E, tsn, 1) + b"\x0b\x00\x80")
            rsp, ends = None, ["ok"]
        E.check(p.priority == 1, "with high priority")
        if always == what:
            how = mode[0]
        elif restart and not restarts and what != "read" and E.bool("again"):
            how = "again"
            restarts.append(what)
        elif always is None and spec.failures + misses[0] < max_failures:
            how = E.pick("how", ends + [f for f in FAILURES if f in kind or f in ("timeout", "delivery")] + (["default_rsp"] if "default_rsp" in kind else []))
        else:
            how = "ok"
        if how != "ok":
            E.reach(how)
            if how in ("timeout", "default_rsp") and what == "read":
                misses[0] += 1
        if how == "timeout":
            E.reach("split_model" if what == "read" else "timeout")
        extended = not spec.node or end_device
        fails = spec.failures
        spec.advance(how)
        packet = None
        if how not in ("timeout", "delivery", "again"):
            if rsp is None:
                packet = world.packet(dev, kind[how], cluster=0, src_ep=eps[i], dst_ep=eps[i])
            else:
                packet = world.packet(dev, le(E, tsn, 1) + kind[how], cluster=rsp, src_ep=0, dst_ep=0, profile=0)
        inbox.append((how, packet, extended, spec.failures > fails))
        return zigpy.exceptions.DeliveryError("no") if how == "delivery" else None

    inbox, misses, restarts = [], [0], []
    mode = [E.pick("mode", [f for f in FAILURES if always != "read" or f != "refused"])] if always else [None]
    app.fail = see
    first = task = dev.schedule_initialize()
    E.check(task is not None and not task.done(), "whoever starts it can wait for it")
    loop.drain()
    while inbox:
        how, packet, extended, failed = inbox.pop()
        E.check(not inbox, "one request at a time")
        E.reach("again" if how == "again" else "ok")
        if how == "again":
            loop.advance(E.pick("meanwhile", [0, 3]))
            task = dev.schedule_initialize()
        elif how == "timeout":
            loop.advance(27 if extended else 4)
            E.check(not inbox and dev.initializing, "the device is given time to answer")
            loop.advance(1)
            if extended:
                E.reach("slow")
        elif packet is not None:
            app.packet_received(packet)
        loop.drain()
        if failed and spec.outcome is None:
            E.check(not inbox and dev.initializing, "a pause between tries")
            loop.advance(0.5)
            loop.drain()
            E.reach("retried")
    E.check(spec.want is None, "everything is asked for")
    E.check(not dev.initializing, "initialization ends")
    E.check(task.done() and not task.cancelled() and (task is first or first.cancelled()), "and with it what was returned when it was started")
    E.reach(spec.outcome)
    if spec.outcome == "ok":
        E.check(rec.events == [("raw_device_initialized", dev), ("device_initialized", dev)], "the device is announced as ready, once")
    else:
        E.check(rec.events == [("device_init_failure", dev)] and spec.failures == 5, "after five tries the failure is announced, once")
    E.check(app.devices[dev.ieee] is dev, "the device is known")
    E.check((dev.node_desc is not None) == spec.node, "the node descriptor is kept")
    if spec.node and "node" not in known:
        E.check(E.all(dev.node_desc.manufacturer_code == mcode, dev.node_desc.is_end_device == end_device), "as it was told")
    if spec.listed:
        E.check(list(dev.endpoints) == [0, *eps], "the endpoints are those it told")
        for i, e in enumerate(eps):
            ep = dev.endpoints[e]
            if i in spec.described:
                E.check(E.all(ep.profile_id == profs[i], ep.device_type == types[i]), "with the profile and type it told")
                E.check(list(ep.in_clusters) == ins[i] and list(ep.out_clusters) == outs[i], "and the clusters it told")
                E.check(ep.status == zigpy.endpoint.Status.ZDO_INIT or "described" in known, "it is described")
            elif i in spec.inactive:
                E.check(ep.status != zigpy.endpoint.Status.NEW and not ep.in_clusters, "an inactive endpoint is left alone")
                E.reach("inactive")
            else:
                E.check(ep.status == zigpy.endpoint.Status.NEW, "what it does is not known yet")
    else:
        E.check(list(dev.endpoints) == [0], "no endpoints are known")
    if nep:
        E.check(dev.is_initialized == (spec.node and spec.listed and len(spec.described | spec.inactive) == nep), "it is initialized when all of that is known")
    if not any(basics):
        E.reach("no_basic")
    E.check(dev.model == spec.model and dev.manufacturer == spec.manufacturer, "the first model and manufacturer it told")
    if len(attrs) == 2 and attrs[1] == (True, True) and spec.outcome == "ok" and not attrs[0][0]:
        E.reach("second_basic")
    n = len(app.sent)
    loop.advance(60)
    E.check(len(app.sent) == n and len(rec.events) == (2 if spec.outcome == "ok" else 1), "nothing more happens")


def known_all(E):
    """A device that is fully known is ready at once."""
    loop = E.loop()
    app = world.make_app()
    dev = world.add_device(app)
    rec = world.Rec("device_initialized", "device_init_failure")
    app.add_listener(rec)
    E.check(dev.schedule_initialize() is None, "nothing to do")
    loop.drain()
    E.check(not app.sent and rec.events == [("device_initialized", dev)], "the device is ready")
    E.reach("known_all")


B, N = True, False
BOTH, NONE, MODEL, MAKER = (True, True), (False, False), (False, True), (True, False)


def units(tier):
    more = 1 if tier == "quick" else 2
    cases = {
        "one": dict(nep=1, known=(), basics=(B,), attrs=(BOTH,), max_failures=1 + more),
        "one-nothing": dict(nep=1, known=("node", "endpoints"), basics=(B,), attrs=(NONE,), max_failures=1 + more),
        "one-model": dict(nep=1, known=("node", "endpoints"), basics=(B,), attrs=(MODEL,), max_failures=1 + more),
        "one-maker": dict(nep=1, known=("node", "endpoints"), basics=(B,), attrs=(MAKER,), max_failures=1 + more),
        "one-listed": dict(nep=1, known=("endpoints",), basics=(B,), attrs=(BOTH,), max_failures=1 + more),
        "two": dict(nep=2, known=("node",), basics=(N, B), attrs=(NONE, BOTH), max_failures=more),
        "two-split": dict(nep=2, known=("node", "endpoints"), basics=(B, B), attrs=(MODEL, BOTH), max_failures=more),
        "two-zdo": dict(nep=2, known=("node",), basics=(N, N), attrs=(NONE, NONE), max_failures=1 + more, zdo_ep=True),
        "described": dict(nep=2, known=("endpoints", "described"), basics=(B, B), attrs=(NONE, BOTH), max_failures=more),
        "one-empty": dict(nep=1, known=("node", "endpoints"), basics=(B,), attrs=(("", True),), max_failures=1),
        "one-empty-model": dict(nep=1, known=("node", "endpoints"), basics=(B,), attrs=((True, ""),), max_failures=1),
        "one-again": dict(nep=1, known=(), basics=(B,), attrs=(BOTH,), max_failures=0, restart=True),
        "two-again": dict(nep=2, known=("node",), basics=(N, B), attrs=(NONE, MODEL), max_failures=more, restart=True),
        "none": dict(nep=0, known=(), basics=(), attrs=(), max_failures=1 + more),
    }
    yield "known-all", known_all, {}
    for name, kw in cases.items():
        yield name, drive, dict(always=None, **kw)
    for what in ("node", "list", "describe", "read"):
        yield f"never-{what}", drive, dict(nep=1, known=(), basics=(B,), attrs=(BOTH,), max_failures=0, always=what)
