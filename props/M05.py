"""Reading, writing and reporting attributes, and what is remembered of them."""

import datetime

import zigpy.types as t
import zigpy.zcl
from props import world
from props.common import le
from zigpy.zcl import foundation as f

BOUNDS = ("reads of up to 3 attributes by name or number, known or not, with every state of the cache; replies with any subset of records in any status, "
          "unrequested records and default responses; writes of up to 2 attributes with any values; histories of 4 (thorough 5) cache changes")
OUTSIDE = "asking for one attribute twice; values that do not fit their type (Z05)"
REACH = ["read", "from_cache", "only_cache", "unsupported", "default_rsp", "extra", "missing", "write", "write_failed", "write_default", "configure",
         "configure_failed", "history", "report", "undivided", "client", "bad_value", "declared"]

TIME, WAIT, START, LEVEL, UNK = 0x4001, 0x4002, 0x4003, 0x5000, 0x7777
DEFS = {TIME: ("on_time", 2, 0x21), WAIT: ("off_wait_time", 2, 0x21), START: ("start_up_on_off", 1, 0x30)}


def make(E, client=False):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, ins=(0x0000, 0x0006), outs=(0x0019, 0x0008))
    cl = dev.endpoints[1].in_clusters[0x0006]
    rec = world.Rec("attribute_updated", "attribute_cleared", "unsupported_attribute_added", "unsupported_attribute_removed")
    cl.add_listener(rec)
    return loop, app, dev, cl, rec


def reply(E, loop, app, dev, cmd, payload, cluster=6):
    tsn = app.sent[-1].tsn
    app.packet_received(world.packet(dev, world.zcl(0x18, tsn, cmd, payload), cluster=cluster))
    loop.drain()


def typed(E, a, v):
    """Type identifier and value, by hand."""
    if a in DEFS:
        return bytes([DEFS[a][2]]) + le(E, v, DEFS[a][1])
    return b"\x20" + le(E, v, 1)


def value(E, a):
    return E.int("value", 0, 1 if a == START else 0xFFFE if a in DEFS else 0xFE)


def events(rec, name):
    return [e[1:] for e in rec.events if e[0] == name]


ASKS = [
    [TIME], ["on_time"], [UNK], [START], ["start_up_on_off"], ["off_wait_time", TIME], [WAIT, UNK], [UNK, "start_up_on_off"], [TIME, "off_wait_time", START],
]


def read(E, ask, mode):
    loop, app, dev, cl, rec = make(E)
    ids = [{"on_time": TIME, "off_wait_time": WAIT, "start_up_on_off": START}.get(a, a) for a in ask]
    cache, unsup = {}, set()
    for a in ids:
        k = E.choice("state", 3)
        if k == 1:
            v = E.bits("cached", 1)
            cl.update_attribute(a, v)
            cache[a] = v
        elif k == 2:
            cl.add_unsupported_attribute(a)
            unsup.add(a)
    rec.events.clear()
    manuf = E.pick("manufacturer", [None, 0x1234]) if len(ask) == 1 else None
    kw = dict(allow=dict(allow_cache=True), only=dict(only_cache=True), both=dict(allow_cache=True, only_cache=True), none={})[mode]
    task = loop.spawn(cl.read_attributes(list(ask), manufacturer=manuf, **kw))
    good, bad, want = {}, {}, []
    for name, a in zip(ask, ids):
        if mode != "none" and a in cache:
            good[name] = cache[a]
            E.reach("from_cache")
        elif mode != "none" and a in unsup:
            bad[name] = 0x86
        else:
            want.append((name, a))
    if mode in ("only", "both") or not want:
        E.check(not app.sent and task.done(), "nothing is requested")
        E.check(task.result() == (good, bad), "answered from the cache")
        E.check(not rec.events, "nothing changes")
        if mode == "only":
            E.reach("only_cache")
        return
    E.check(len(app.sent) == 1, "one request")
    p = app.sent[0]
    head = bytes([0x00]) if manuf is None else bytes([0x04, 0x34, 0x12])
    E.check(p.data.serialize() == head + bytes([p.tsn, 0x00]) + b"".join([le(E, a, 2) for _, a in want]), "the attributes requested, in order")
    E.check(E.all(p.cluster_id == 6, p.dst_ep == 1, p.src_ep == 1, p.profile_id == 260), "addressed to the cluster")
    if E.choice("reply", 3) == 0:
        status = E.int("status", 1, 255)
        reply(E, loop, app, dev, 0x0B, bytes([0x00, status]))
        E.check(task.done(), "the default response ends it")
        ok, failed = task.result()
        E.check(ok == good, "nothing was read")
        E.check(E.all(len(failed) == len(bad) + len(want), *[failed[n] == status for n, _ in want]), "every attribute fails with the status of the default response")
        E.check(not rec.events, "nothing changes")
        E.reach("default_rsp")
        return
    payload = b""
    updated, gone, new = [], [], []
    for name, a in want:
        k = E.choice("record", 3)
        if k == 0:
            v = value(E, a)
            payload += le(E, a, 2) + b"\x00" + typed(E, a, v)
            good[name] = v
            updated.append((a, v))
            if a in unsup:
                gone.append(a)
        elif k == 1:
            status = E.pick("status", [0x86, 0x01, 0x7E, 0x8D] if len(ask) == 1 else [0x86, 0x01])
            payload += le(E, a, 2) + bytes([status])
            bad[name] = status
            if status == 0x86 and a not in unsup:
                new.append(a)
        else:
            E.reach("missing")
    if len(ask) < 3 and E.bool("extra"):
        payload += le(E, LEVEL, 2) + b"\x00\x20\x07" if E.bool("extra_ok") else le(E, LEVEL, 2) + b"\x86"
        E.reach("extra")
        extra = True
    else:
        extra = False
    if not payload:
        E.assume(False)
    reply(E, loop, app, dev, 0x01, payload)
    E.check(task.done(), "the reply ends it")
    ok, failed = task.result()
    ok, failed = dict(ok), dict(failed)
    ok.pop(LEVEL, None)
    failed.pop(LEVEL, None)
    E.check(ok == good, "the values read, by the names they were asked for")
    E.check(failed == bad, "the failures, by the names they were asked for")
    seen = [e for e in events(rec, "attribute_updated") if e[0] != LEVEL]
    E.check(len(seen) == len(updated), "each value read is announced")
    for e, (a, v) in zip(seen, updated):
        E.check(E.all(e[0] == a, e[1] == v), "each value read is announced")
        E.check(cl.get(a) == v if a in DEFS else True, "and remembered")
        if a in DEFS:
            E.check(isinstance(e[1], cl.attributes[a].type), "with its type")
    E.check([e[0] for e in events(rec, "unsupported_attribute_added") if e[0] != LEVEL] == new, "unsupported attributes are noted")
    E.check([e[0] for e in events(rec, "unsupported_attribute_removed")] == gone, "an attribute that can be read is supported")
    for name, a in zip(ask, ids):
        E.check((a in cl.unsupported_attributes) == ((a in unsup and a not in gone) or a in new), "the set of unsupported attributes")
        if a in DEFS:
            E.check((DEFS[a][0] in cl.unsupported_attributes) == (a in cl.unsupported_attributes), "it holds names and numbers alike")
            E.check(cl.get(a) == dict(updated).get(a, cache.get(a)), "other values stay")
    if new or unsup:
        E.reach("unsupported")
    E.reach("read")


WRITES = [[TIME], ["start_up_on_off"], ["on_time", START], [WAIT, "on_time"], ["on_time", UNK]]


def write(E, what, undivided):
    loop, app, dev, cl, rec = make(E)
    vals = {a: value(E, TIME if a in ("on_time", TIME, WAIT) else START) for a in what}
    ids = [{"on_time": TIME, "off_wait_time": WAIT, "start_up_on_off": START}.get(a, a) for a in what if a != UNK]
    vs = [v for a, v in vals.items() if a != UNK]
    old = {}
    for a in ids:
        if E.bool("cached"):
            cl.update_attribute(a, 1)
            old[a] = 1
    rec.events.clear()
    manuf = E.pick("manufacturer", [None, 0x1234])
    task = loop.spawn((cl.write_attributes_undivided if undivided else cl.write_attributes)(dict(vals), manufacturer=manuf))
    E.check(len(app.sent) == 1, "one request")
    p = app.sent[0]
    head = bytes([0x00]) if manuf is None else bytes([0x04, 0x34, 0x12])
    body = b"".join([le(E, a, 2) + typed(E, a, v) for a, v in zip(ids, vs)])
    E.check(p.data.serialize() == head + bytes([p.tsn, 0x03 if undivided else 0x02]) + body, "each attribute with its type and value")
    k = E.choice("reply", 3)
    if k == 0:
        reply(E, loop, app, dev, 0x04, b"\x00")
        written = ids
    elif k == 1:
        failed = []
        payload = b""
        for a in ids:
            if E.bool("failed"):
                failed.append(a)
                payload += bytes([E.int("status", 1, 255)]) + le(E, a, 2)
        if not failed:
            E.assume(False)
        reply(E, loop, app, dev, 0x04, payload)
        written = [a for a in ids if a not in failed]
        E.reach("write_failed")
    else:
        status = E.bits("status", 8)
        reply(E, loop, app, dev, 0x0B, bytes([0x03 if undivided else 0x02, status]))
        written = []
        E.reach("write_default")
    E.check(task.done(), "the reply ends it")
    res = task.result()
    if k == 2:
        E.check(E.all(res[0] == (3 if undivided else 2), res[1] == status), "a default response is handed on")
    elif k == 1:
        E.check([r.attrid for r in res[0]] == failed, "the failures are handed on")
    else:
        E.check(len(res[0]) == 1 and res[0][0].status == 0, "success is handed on")
    if undivided:
        E.reach("undivided")
        return
    E.check([e[0] for e in events(rec, "attribute_updated")] == written, "what was written, and nothing else, is remembered and announced")
    for a, v in zip(ids, vs):
        if a in written:
            E.check(E.all(cl.get(a) == v, cl[a] == v, cl.get(DEFS[a][0]) == v), "what was written is remembered")
        else:
            E.check(cl.get(a) == old.get(a), "what was refused is not remembered")
    E.reach("write")


def bad_write(E):
    loop, app, dev, cl, rec = make(E)
    v = E.int("value", -70000, 140000)
    inside = E.all(0 <= v, v <= 0xFFFF)
    if inside:
        task = loop.spawn(cl.write_attributes({"on_time": v}))
        E.check(len(app.sent) == 1, "a value that fits is sent")
        task.cancel()
        loop.drain()
    else:
        E.check(E.raises(ValueError, loop.run, cl.write_attributes({"on_time": v})), "a value that does not fit is refused")
        E.check(not app.sent and not rec.events, "and not sent")
    E.check(E.raises(KeyError, loop.run, cl.write_attributes({"no_such_attribute": 1})), "an unknown name is refused")
    E.check(E.raises(KeyError, loop.run, cl.read_attributes(["no_such_attribute"])), "an unknown name is refused")
    E.reach("bad_value")


def configure(E, what, many):
    loop, app, dev, cl, rec = make(E)
    ids = [{"on_time": TIME, "start_up_on_off": START}.get(a, a) for a in what]
    unsup = []
    for a in ids:
        if E.bool("unsupported"):
            cl.add_unsupported_attribute(a)
            unsup.append(a)
    rec.events.clear()
    conf = {}
    body = b""
    for name, a in zip(what, ids):
        mn, mx, ch = E.bits("min", 16), E.bits("max", 16), E.bits("change", 16)
        conf[name] = (mn, mx, ch)
        body += b"\x00" + le(E, a, 2) + bytes([DEFS[a][2]]) + le(E, mn, 2) + le(E, mx, 2) + (le(E, ch, 2) if a != START else b"")
    manuf = E.pick("manufacturer", [None, 0x1234])
    if many:
        task = loop.spawn(cl.configure_reporting_multiple(dict(conf), manufacturer=manuf))
    else:
        task = loop.spawn(cl.configure_reporting(what[0], *conf[what[0]], manufacturer=manuf))
    E.check(len(app.sent) == 1, "one request")
    p = app.sent[0]
    head = bytes([0x00]) if manuf is None else bytes([0x04, 0x34, 0x12])
    E.check(p.data.serialize() == head + bytes([p.tsn, 0x06]) + body, "attribute, type, intervals, and the change for numbers")
    k = E.choice("reply", 3)
    added, removed = [], []
    if k == 0:
        reply(E, loop, app, dev, 0x07, b"\x00")
        removed = [a for a in ids if a in unsup]
    elif k == 1:
        payload = b""
        for a in ids:
            s = E.pick("status", [0x86, 0x8C, 0x01, 0x8D])
            payload += bytes([s, 0]) + le(E, a, 2)
            if s == 0x86 and a not in unsup:
                added.append(a)
        reply(E, loop, app, dev, 0x07, payload)
        E.reach("configure_failed")
    else:
        reply(E, loop, app, dev, 0x0B, bytes([0x06, E.bits("status", 8)]))
    E.check(task.done(), "the reply ends it")
    task.result()
    E.check([e[0] for e in events(rec, "unsupported_attribute_added")] == added, "attributes that cannot be reported are noted")
    E.check([e[0] for e in events(rec, "unsupported_attribute_removed")] == removed, "attributes that can be reported are supported")
    for a in ids:
        now = (a in unsup or a in added) and a not in removed
        E.check((a in cl.unsupported_attributes) == now and (DEFS[a][0] in cl.unsupported_attributes) == now, "the set of unsupported attributes")
    E.reach("configure")


class Mode(t.enum8):
    A = 0
    B = 1


#: how an attribute is declared, what type it has on the air, and whether that is a number
DECLARED = [(Mode, 0x20, True), (t.uint8_t, 0x30, False), (t.bitmap8, 0x20, True), (t.uint8_t, 0x18, False), (t.Bool, 0x20, True), (Mode, None, False), (t.uint8_t, None, True)]


def declared(E):
    """An attribute declared with a type of its own on the air is written, and has its reporting configured, with that type."""
    loop, app, dev, cl, rec = make(E)
    ty, air, number = DECLARED[E.choice("kind", len(DECLARED))]
    kw = {} if air is None else {"zcl_type": f.DataTypeId(air)}
    air = air or (0x30 if ty is Mode else 0x20)

    class Own(zigpy.zcl.Cluster):
        _skip_registry = True
        cluster_id = 0xFC12
        ep_attribute = "own"

        class AttributeDefs(f.BaseAttributeDefs):
            attr = f.ZCLAttributeDef(id=0x0010, type=ty, **kw)

    cl = dev.endpoints[1].add_input_cluster(0xFC12, Own(dev.endpoints[1], is_server=True))
    if E.bool("write"):
        v = E.int("value", 0, 1)
        task = loop.spawn(cl.write_attributes({"attr": v}))
        E.check(len(app.sent) == 1, "one request")
        E.check(app.sent[0].data.serialize()[3:] == b"\x10\x00" + bytes([air, v]), "written with the type on the air")
    else:
        mn, mx, ch = E.bits("min", 16), E.bits("max", 16), E.bits("change", 7)
        task = loop.spawn(cl.configure_reporting("attr", mn, mx, ch))
        E.check(len(app.sent) == 1, "one request")
        want = b"\x00\x10\x00" + bytes([air]) + le(E, mn, 2) + le(E, mx, 2) + (le(E, ch, 1) if number else b"")
        E.check(app.sent[0].data.serialize()[3:] == want, "reporting is configured with the type on the air")
    task.cancel()
    loop.drain()
    E.reach("declared")


def history(E, depth, first):
    """Cache contents after any sequence of changes."""
    loop, app, dev, cl, rec = make(E)
    cache, unsup, ev = {}, set(), []
    n = 0
    for step in range(depth):
        op = first if step == 0 else E.choice("op", 5)
        a = E.pick("attr", [TIME, UNK]) if op != 3 else TIME
        if op == 0:
            v = E.bits("value", 8)
            cl.update_attribute(a, v)
            cache[a] = v
            ev.append(("attribute_updated", a))
        elif op == 1:
            cl.update_attribute(a, None)
            if a in cache:
                del cache[a]
                ev.append(("attribute_cleared", a))
        elif op == 2:
            n += 1
            v, w = E.bits("value", 8), E.bits("other", 8)
            payload = le(E, a, 2) + typed(E, a, v) + le(E, WAIT, 2) + typed(E, WAIT, w)
            app.packet_received(world.packet(dev, world.zcl(0x18, n, 0x0A, payload), profile=0x1000 + n))
            loop.drain()
            cache[a] = v
            cache[WAIT] = w
            ev += [("attribute_updated", a), ("attribute_updated", WAIT)]
            E.reach("report")
        elif op == 3:
            by = E.pick("by", [TIME, "on_time"])
            cl.add_unsupported_attribute(by)
            if TIME not in unsup:
                unsup.add(TIME)
                ev.append(("unsupported_attribute_added", TIME))
        else:
            by = ("on_time" if E.bool("named") else TIME) if a == TIME else a
            cl.remove_unsupported_attribute(by)
            if a in unsup:
                unsup.remove(a)
                ev.append(("unsupported_attribute_removed", a))
        E.check([(e[0], e[1]) for e in rec.events] == ev, "each change is announced once")
        for k in (TIME, WAIT):
            want = cache.get(k)
            E.check(E.all(cl.get(k) == want, cl.get(DEFS[k][0]) == want, cl.get(k, 77) == (77 if want is None else want)), "the value last reported or set, by name or number")
            if want is None:
                E.check(E.raises(KeyError, cl.__getitem__, k), "nothing is remembered")
            else:
                E.check(E.all(cl[k] == want, cl[DEFS[k][0]] == want), "the value remembered")
        E.check(cl.unsupported_attributes == ({TIME, "on_time"} if unsup else set()), "the set of unsupported attributes")
        got = loop.run(cl.read_attributes([TIME, "off_wait_time", UNK], only_cache=True))
        E.check(got[0] == {k: cache[a] for k, a in ((TIME, TIME), ("off_wait_time", WAIT), (UNK, UNK)) if a in cache}, "a cached read gives the remembered values")
        E.check(got[1] == ({TIME: 0x86} if TIME in unsup and TIME not in cache else {}), "and names the unsupported ones")
    E.check(not app.sent, "nothing is sent")
    E.reach("history")


def client(E):
    """Requests of client clusters travel in the other direction and ask for no default response."""
    loop, app, dev, cl, rec = make(E)
    out = dev.endpoints[1].out_clusters[0x0008]
    task = loop.spawn(out.read_attributes(["current_level"]))
    p = app.sent[0]
    E.check(p.data.serialize() == bytes([0x18, p.tsn, 0x00, 0x00, 0x00]), "request from the server side")
    v = E.bits("value", 8)
    # the reply comes from the client side
    app.packet_received(world.packet(dev, world.zcl(0x10, p.tsn, 0x01, bytes([0, 0, 0, 0x20, v])), cluster=8))
    loop.drain()
    E.check(task.done() and task.result() == ({"current_level": v}, {}), "the value read")
    E.reach("client")


def units(tier):
    out = [("bad_write", bad_write, {}), ("declared", declared, {}), ("client", client, {})]
    for i, ask in enumerate(ASKS):
        for mode in ("none", "allow", "only", "both"):
            if mode == "both" and i not in (0, 6):
                continue
            out.append((f"read:{mode}:{i}", read, dict(ask=ask, mode=mode)))
    for i, w in enumerate(WRITES):
        out.append((f"write:{i}", write, dict(what=w, undivided=False)))
        if i in (0, 2):
            out.append((f"undivided:{i}", write, dict(what=w, undivided=True)))
    for i, w in enumerate([[TIME], ["start_up_on_off"], ["on_time", START], [START, "on_time"]]):
        out.append((f"configure:{i}", configure, dict(what=w, many=True)))
        if len(w) == 1:
            out.append((f"configure_one:{i}", configure, dict(what=w, many=False)))
    depth = 4 if tier == "quick" else 5
    for op in range(5):
        out.append((f"history:{op}", history, dict(depth=depth, first=op)))
    return out
