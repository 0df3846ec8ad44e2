"""What a quirk declares is what the device has, says and is asked."""

import zigpy.endpoint
import zigpy.exceptions
import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.clusters.general as general
from props import world
from props.common import le
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2 import EntityPlatform, EntityType, QuirkBuilder
from zigpy.quirks.v2.homeassistant.binary_sensor import BinarySensorDeviceClass
from zigpy.quirks.v2.homeassistant.number import NumberDeviceClass
from zigpy.quirks.v2.homeassistant.sensor import SensorDeviceClass, SensorStateClass
from zigpy.zcl import ClusterType
from zigpy.zcl import foundation as f

BOUNDS = ("replacements of up to 3 endpoints with generic and custom clusters on both sides, every part of a replacement there or not; devices of up to 2 endpoints with "
          "any addition, removal, replacement and replacement everywhere; reads of up to 3 attributes, constant or not, by name or number, with any answer; "
          "every operation on attributes and commands, manufacturer specific or not, with and without a manufacturer given; "
          "one entity of any kind with every option, and two entities of different kinds under the same or other clusters")
OUTSIDE = "what a user makes of entities and triggers; quirks that fail while they are constructed; what a replaced cluster knew of its attributes"
REACH = ["v1", "replaced", "kept", "v2", "added", "removed", "replaced_v2", "everywhere", "cache", "constant", "mixed", "refused", "manufacturer", "given", "plain", "entities", "unnamed", "configured", "cloned"]


class Own(zigpy.quirks.CustomCluster):
    cluster_id = 0x0006
    ep_attribute = "on_off"


class Maker(zigpy.quirks.CustomCluster):
    cluster_id = 0xFC00
    ep_attribute = "maker"


class OwnEndpoint(zigpy.quirks.CustomEndpoint):
    pass


def device(E):
    E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    dev = world.add_device(app, endpoints=(1, 2), ins=(0x0000, 0x0006), outs=(0x0006, 0x0019))
    for e in (1, 2):
        dev.endpoints[e].profile_id, dev.endpoints[e].device_type = E.bits(f"profile{e}", 16), E.bits(f"type{e}", 16)
    dev.lqi, dev.rssi, dev.last_seen, dev.relays = E.bits("lqi", 8), E.int("rssi", -128, 127), 1000.0, [0x1111, 0x2222]
    return app, dev


def same_device(E, got, dev, replaced=()):
    E.check(E.all(got.ieee == dev.ieee, got.nwk == dev.nwk, got.application is dev.application), "the same device")
    for a in ("lqi", "rssi", "last_seen", "relays", "status", "node_desc", "manufacturer", "model"):
        if a not in replaced:
            E.check(getattr(got, a) == getattr(dev, a), f"the custom device has another {a}")
    E.check(got.zdo.device is got, "its own device object")


def has(E, side, ep, kind, want):
    """`side` has just the clusters of `want`: id -> class, or None for a generic one."""
    E.check(sorted(side) == sorted(want), "clusters")
    for c, cls in want.items():
        cl = side[c]
        E.check(E.all(cl.cluster_id == c, cl.endpoint is ep, cl.cluster_type == kind), "a cluster of its own side and endpoint")
        if cls is not None:
            E.check(type(cl) is cls, "the custom cluster")
        else:
            E.check(not isinstance(cl, zigpy.quirks.CustomCluster), "a generic cluster")


def v1(E, names):
    app, dev = device(E)
    rep, replaced = {}, []
    if names:
        for a, v in (("manufacturer", "M"), ("model", "X"), ("node_desc", world.node_desc(end_device=True)), ("skip_configuration", True)):
            if E.bool("replaces"):
                rep[a] = v
                replaced.append(a)
        eps = (1,)
    else:
        eps = E.pick("endpoints", [(), (1,), (2, 1), (1, 3), (3,)])
    rep["endpoints"] = {}
    want = {}
    for e in eps:
        data = {}
        prof, ty = (None, None) if e == 3 else (dev.endpoints[e].profile_id, dev.endpoints[e].device_type)
        if e == 3 or E.bool("profile"):
            prof = data["profile_id"] = E.bits("new_profile", 16)
        if e == 3 or E.bool("type"):
            ty = data["device_type"] = E.bits("new_type", 16)
        sides = []
        for name in ("input_clusters", "output_clusters"):
            listed = E.pick(name, [None, (0x0000, Own), (Maker, 0x0006)]) if not names else None
            if listed is not None:
                data[name] = list(listed)
            sides.append({c if isinstance(c, int) else c.cluster_id: None if isinstance(c, int) else c for c in listed or ()})
        own = E.pick("own", [False, True]) if not names else False
        rep["endpoints"][e] = (OwnEndpoint, data) if own else data
        want[e] = (prof, ty, sides, OwnEndpoint if own else zigpy.quirks.CustomEndpoint)

    class Quirk(zigpy.quirks.CustomDevice):
        replacement = rep

    Quirk.signature = {"endpoints": {e: {"input_clusters": [0x0000, 0x0006], "output_clusters": [0x0006, 0x0019]} for e in (1, 2)}}
    registry = DeviceRegistry()
    registry.add_to_registry(Quirk)
    got = registry.get_device(dev)
    E.check(type(got) is Quirk, "the quirk takes over")
    same_device(E, got, dev, replaced)
    for a in replaced:
        E.check(getattr(got, a) == rep[a], f"the replaced {a}")
    if "skip_configuration" not in replaced:
        E.check(not got.skip_configuration, "configuration is not skipped unless told")
    E.check(sorted(got.endpoints) == sorted([0, *eps]), "just the endpoints declared")
    for e, (prof, ty, sides, cls) in want.items():
        ep = got.endpoints[e]
        E.check(E.all(type(ep) is cls, ep.device is got, ep.endpoint_id == e, ep.profile_id == prof, ep.device_type == ty, ep.status == zigpy.endpoint.Status.ZDO_INIT), "endpoint")
        has(E, ep.in_clusters, ep, ClusterType.Server, sides[0])
        has(E, ep.out_clusters, ep, ClusterType.Client, sides[1])
    E.check(got.is_initialized or not eps, "it is as ready as the device was")
    E.reach("v1")
    E.reach("replaced" if replaced else "kept")


def v2(E, what):
    app, dev = device(E)
    attr = general.OnOff.AttributeDefs.on_off.id
    v = E.int("value", 0, 1)
    for e in (1, 2):
        dev.endpoints[e].in_clusters[6]._attr_cache[attr] = v
        dev.endpoints[e].out_clusters[6]._attr_cache[attr] = 1 - v
    registry = DeviceRegistry()
    b = QuirkBuilder("manufacturer", "model", registry=registry)
    want = {(e, k): {c: None for c in ((0, 6) if k == ClusterType.Server else (6, 0x19))} for e in (1, 2) for k in (ClusterType.Server, ClusterType.Client)}
    fresh = set()  # generic, but new
    kind = lambda: E.pick("kind", [ClusterType.Server, ClusterType.Client])
    ep = lambda: E.pick("endpoint", [1, 2])
    nd = None
    if what == "misc":
        skip = E.bool("skip")
        if skip:
            b.skip_configuration(E.pick("skip_value", [True, False]))
        if E.bool("node"):
            nd = world.node_desc(end_device=True)
            b.node_descriptor(nd)
    steps = []
    if "adds" in what or what == "all":
        c, k, e = E.pick("adds", [0x0006, 0x0008, Own, Maker]), kind(), ep()
        b.adds(c, cluster_type=k, endpoint_id=e)
        steps.append((0, c, k, e))
    if "removes" in what or what == "all":
        c, k, e = E.pick("removes", [0x0006, 0x0019, 0x0008]), kind(), ep()
        b.removes(c, cluster_type=k, endpoint_id=e)
        steps.append((1, c, k, e))
    if "replaces" in what or what == "all":
        k, e, old = kind(), ep(), E.pick("replaces", [None, 0x0019, 0x0000])
        b.replaces(Own, cluster_id=old, cluster_type=k, endpoint_id=e)
        steps.append((2, 0x0006 if old is None else old, k, e))
    if "everywhere" in what or what == "all":
        s, c = E.pick("sides", [(True, True), (True, False), (False, True)])
        b.replace_cluster_occurrences(Own, replace_server_instances=s, replace_client_instances=c)
        steps.append((3, Own, (s, c), None))
    for op, c, k, e in steps:
        if op == 0 and isinstance(c, int):
            if c not in want[e, k]:
                fresh.add((e, k, c))
                want[e, k][c] = None
            E.reach("added")
        elif op == 0:
            want[e, k][c.cluster_id] = c
            E.reach("added")
        elif op == 1:
            want[e, k].pop(c, None)
            E.reach("removed")
        elif op == 2:
            want[e, k].pop(c, None)
            want[e, k][6] = Own
            E.reach("replaced_v2")
        else:
            for (e2, k2), w in want.items():
                if 6 in w and k[0 if k2 == ClusterType.Server else 1]:
                    w[6] = Own
            E.reach("everywhere")
    b.add_to_registry()
    got = registry.get_device(dev)
    same_device(E, got, dev, ("node_desc",) if nd else ())
    if nd:
        E.check(got.node_desc == nd, "the node descriptor given")
    if what == "misc":
        E.check(bool(got.skip_configuration) == (skip and bool(b.skip_device_configuration)), "configuration is skipped only if told")
    E.check(sorted(got.endpoints) == [0, 1, 2], "endpoints")
    for (e, k), w in want.items():
        raw, end = dev.endpoints[e], got.endpoints[e]
        E.check(E.all(end.device is got, end.profile_id == raw.profile_id, end.device_type == raw.device_type), "endpoint")
        side = end.in_clusters if k == ClusterType.Server else end.out_clusters
        has(E, side, end, k, w)
        if 6 in w and w[6] is None and (e, k, 6) not in fresh:
            was = (raw.in_clusters if k == ClusterType.Server else raw.out_clusters)[6]
            E.check(side[6].get("on_off") == (v if k == ClusterType.Server else 1 - v), "a cluster that stays knows what it knew")
            side[6].update_attribute(attr, 7)
            E.check(was._attr_cache[attr] != 7, "and no other cluster learns what it learns")
            E.reach("cache")
    E.reach("v2")


A, B, C = 0x0000, 0x4001, 0x4003
NAMES = {A: "on_off", B: "on_time", C: "start_up_on_off"}
ASKS = [[A], ["on_off"], [A, B], [B, "on_off"], ["on_time", C, A], [B, C], [C, B, A]]


def constants(E, how, ask):
    """A constant attribute is known at once and the device is never asked for it; other attributes are read as usual."""
    app, dev = device(E)
    loop = E.loop()
    v = E.int("constant", 0, 1) if how == "v1" else E.pick("constant", [0, 1])
    two = E.bool("two")
    const = {A: v, **({C: v} if two else {})}
    Std = general.OnOff.AttributeDefs

    class Const(zigpy.quirks.CustomCluster, general.OnOff):
        pass

    registry = DeviceRegistry()
    if how == "v1":
        Const._CONSTANT_ATTRIBUTES = const
        QuirkBuilder("manufacturer", "model", registry=registry).replaces(Const).add_to_registry()
    else:
        given = {Std.on_off: v, **({Std.start_up_on_off: v} if two else {})}
        QuirkBuilder("manufacturer", "model", registry=registry).adds(Const, constant_attributes=given).add_to_registry()
    got = registry.get_device(dev)
    app.devices[dev.ieee] = got
    cl = got.endpoints[1].in_clusters[6]
    for a in (A, B, C):
        E.check(E.all(cl.get(a, 99) == const.get(a, 99), cl.get(NAMES[a], 99) == const.get(a, 99)), "a constant is known at once")
    ids = [a if isinstance(a, int) else [i for i in NAMES if NAMES[i] == a][0] for a in ask]
    rest = [i for i in ids if i not in const]
    task = loop.spawn(cl.read_attributes(list(ask)))
    loop.drain()
    ok = {n: const[i] for n, i in zip(ask, ids) if i in const}
    bad = {}
    if not rest:
        E.check(not app.sent, "the device is not asked for constants")
        E.reach("constant")
    else:
        E.check(len(app.sent) == 1, "the device is asked once")
        p = app.sent[0]
        E.check(p.data.serialize()[2:] == b"\x00" + b"".join([le(E, i, 2) for i in rest]), "for just the attributes that are not constant")
        if E.bool("refused"):
            status = E.int("status", 1, 255)
            data = world.zcl(0x18, p.tsn, 0x0B, bytes([0x00, status]))
            bad = {n: status for n, i in zip(ask, ids) if i not in const}
            E.reach("refused")
        else:
            body = b""
            for n, i in zip(ask, ids):
                if i in const:
                    continue
                if E.bool("readable"):
                    x = E.int("x", 0, 1)
                    body += le(E, i, 2) + b"\x00" + (b"\x21" + le(E, x, 2) if i == B else b"\x30" + le(E, x, 1))
                    ok[n] = x
                else:
                    bad[n] = E.pick("why", [0x86, 0x7E])
                    body += le(E, i, 2) + bytes([bad[n]])
            data = world.zcl(0x18, p.tsn, 0x01, body)
        app.packet_received(world.packet(got, data, cluster=6))
        loop.drain()
        if len(rest) < len(ids):
            E.reach("mixed")
    E.check(task.done(), "the answer ends it")
    success, failure = task.result()
    E.check(dict(success) == ok, "constants and what was read")
    E.check(dict(failure) == bad, "what could not be read")


def codes(E, op):
    """The maker's code goes with what is specific to the maker, unless another is given."""
    app, dev = device(E)
    loop = E.loop()
    code = E.bits("code", 16)
    dev.node_desc.manufacturer_code = code
    override = E.pick("override", [None, 0x4321])
    ours = E.bool("own_cluster")
    spec = E.bool("specific")

    class Q(zigpy.quirks.CustomCluster):
        cluster_id = 0xFC00 if ours else 0x0B05
        ep_attribute = "q"

        class AttributeDefs(f.BaseAttributeDefs):
            a = f.ZCLAttributeDef(id=0x0010, type=t.uint8_t)
            b = f.ZCLAttributeDef(id=0x0011, type=t.uint8_t, is_manufacturer_specific=True)

        class ServerCommandDefs(f.BaseCommandDefs):
            x = f.ZCLCommandDef(id=0x01, schema={}, direction=False)
            y = f.ZCLCommandDef(id=0x02, schema={}, direction=False, is_manufacturer_specific=True)

        class ClientCommandDefs(f.BaseCommandDefs):
            x = f.ZCLCommandDef(id=0x01, schema={}, direction=True)
            y = f.ZCLCommandDef(id=0x02, schema={}, direction=True, is_manufacturer_specific=True)

    registry = DeviceRegistry()
    QuirkBuilder("manufacturer", "model", registry=registry).adds(Q).add_to_registry()
    got = registry.get_device(dev)
    got.manufacturer_id_override = override
    cl = got.endpoints[1].in_clusters[Q.cluster_id]
    given = E.pick("given", [None, 0x1234, 0, f.ZCLHeader.NO_MANUFACTURER_ID])
    attr = ("b" if E.bool("by_name") else 0x0011) if spec else "a"
    more = E.bool("more")  # next to a plain attribute
    kw = {} if given is None else {"manufacturer": given}
    if op == "read":
        call = cl.read_attributes(["a", attr] if more and spec else [attr], **kw)
    elif op == "write":
        call = cl.write_attributes({"a": 1, attr: 1} if more else {attr: 1}, **kw)
    elif op == "undivided":
        call = cl.write_attributes_undivided({"a": 1, attr: 1} if more else {attr: 1}, **kw)
    elif op == "configure":
        call = cl.configure_reporting_multiple({"a": (1, 2, 3), attr: (1, 2, 3)} if more else {attr: (1, 2, 3)}, **kw)
    elif op == "command":
        call = cl.command(2 if spec else 1, **kw)
    elif op == "call":
        call = (cl.y if spec else cl.x)(**kw)
    else:
        call = cl.client_command(2 if spec else 1, **kw)
    task = loop.spawn(call)
    loop.drain()
    E.check(len(app.sent) == 1, "one frame")
    data = app.sent[0].data.serialize()
    want = given if given is not None else (override or code) if ours or spec else None
    if want is None or want is f.ZCLHeader.NO_MANUFACTURER_ID:
        E.check((data[0] & 4) == 0, "no maker's code where nothing is specific")
        E.reach("plain")
    else:
        E.check(E.all((data[0] & 4) == 4, data[1:3] == le(E, want, 2)), "the code of the maker, or the one given")
        E.reach("manufacturer" if given is None else "given")
    task.cancel()
    loop.drain()

def configuration(E, how):
    """Custom clusters are configured once each, on any endpoint and side, with what the caller gives."""
    app, dev = device(E)
    loop = E.loop()
    done = []

    class Asks(zigpy.quirks.CustomCluster):
        cluster_id = 0xFC00
        ep_attribute = "asks"

        async def apply_custom_configuration(self, *args, **kwargs):
            done.append((self, args, kwargs))

    places = [p for p in ((1, "in"), (1, "out"), (2, "in"), (2, "out")) if E.bool("there")]
    registry = DeviceRegistry()
    if how == "v2":
        b = QuirkBuilder("manufacturer", "model", registry=registry)
        b.replaces(Own)
        for e, side in places:
            b.adds(Asks, cluster_type=ClusterType.Server if side == "in" else ClusterType.Client, endpoint_id=e)
        b.add_to_registry()
    else:
        ends = {e: {"input_clusters": [0x0000, Own] + [Asks] * ((e, "in") in places), "output_clusters": [0x0019] + [Asks] * ((e, "out") in places)} for e in (1, 2)}

        class Quirk(zigpy.quirks.CustomDevice):
            replacement = {"endpoints": ends}

        Quirk.signature = {"endpoints": {e: {"input_clusters": [0x0000, 0x0006], "output_clusters": [0x0006, 0x0019]} for e in (1, 2)}}
        registry.add_to_registry(Quirk)
    got = registry.get_device(dev)
    x = E.bits("x", 8)
    task = loop.spawn(got.apply_custom_configuration(x, key=5))
    loop.drain()
    E.check(task.done() and task.exception() is None, "it ends")
    want = [(got.endpoints[e].in_clusters if side == "in" else got.endpoints[e].out_clusters)[0xFC00] for e, side in places]
    E.check(len(done) == len(want) and all(sum(d[0] is w for d in done) == 1 for w in want), "each custom cluster is configured once")
    for _, a, k in done:
        E.check(E.all(a == (x,), k == {"key": 5}), "with what was given")
    E.check(not app.sent, "and nothing else is done")
    E.reach("configured")


PLAIN = dict(initially_disabled=False, attribute_initialized_from_cache=True, translation_key=None, fallback_name=None)
ENTITIES = {
    # what is given by position, the platform and kind it is of, what it says when nothing else is given, names in the metadata
    "enum": (("on_time", t.enum8), EntityPlatform.SELECT, EntityType.CONFIG, dict(enum=t.enum8), {}),
    "sensor": (("on_time",), EntityPlatform.SENSOR, EntityType.STANDARD, dict(divisor=1, multiplier=1, device_class=None, state_class=None, unit=None), {}),
    "switch": (("on_time",), EntityPlatform.SWITCH, EntityType.CONFIG, dict(force_inverted=False, invert_attribute_name=None, off_value=0, on_value=1), {}),
    "number": (("on_time",), EntityPlatform.NUMBER, EntityType.CONFIG, dict(min_value=None, max_value=None, step=None, unit=None, mode=None, multiplier=None, device_class=None),
               {"min_value": "min", "max_value": "max"}),
    "binary_sensor": (("on_time",), EntityPlatform.BINARY_SENSOR, EntityType.DIAGNOSTIC, dict(device_class=None), {}),
    "write_attr_button": (("on_time", 5), EntityPlatform.BUTTON, EntityType.CONFIG, dict(attribute_value=5), {}),
    "command_button": (("on_with_timed_off",), EntityPlatform.BUTTON, EntityType.CONFIG, dict(args=(), kwargs={}), {}),
}
CLASSES = {"sensor": SensorDeviceClass.TEMPERATURE, "number": NumberDeviceClass.TEMPERATURE, "binary_sensor": BinarySensorDeviceClass.DOOR}
NUMBERS = ("divisor", "multiplier", "off_value", "on_value", "min_value", "max_value", "step")
OTHERS = {"state_class": SensorStateClass.MEASUREMENT, "unit": "C", "force_inverted": True, "invert_attribute_name": "inverted", "mode": "box"}


def entity(E, b, kind, i, given):
    """Declare one entity: what it has to say of itself, or None if it is refused."""
    args, platform, etype, own, names = ENTITIES[kind]
    S, C = ClusterType.Server, ClusterType.Client
    key = E.pick(f"key{i}", [(1, 6, S), (2, 6, S), (1, 0x0402, S), (1, 6, C)] if given == "few" and i else [(1, 6, S), (2, 0x0402, C)])
    want = {**PLAIN, **own, "entity_platform": platform, "entity_type": etype}
    kw = {}
    if key[0] != 1:
        kw["endpoint_id"] = key[0]
    if key[2] != ClusterType.Server:
        kw["cluster_type"] = key[2]
    # what shows it to a user: a key or a class
    tk, dc = E.pick(f"shown{i}", [(False, False), (True, False), (False, True)] if kind in CLASSES else [(False, False), (True, False)])
    if tk:
        kw["translation_key"] = f"key{i}"
    if dc:
        kw["device_class"] = CLASSES[kind]
    name = None if given == "few" and (tk or dc) and E.bool(f"nameless{i}") else f"Name {i}"
    if name is not None:
        kw["fallback_name"] = name
    if given == "many":
        if E.bool("disabled"):
            kw["initially_disabled"] = True
        if kind != "command_button" and E.bool("uncached"):
            kw["attribute_initialized_from_cache"] = False
        if E.bool("type"):
            kw["entity_type"] = EntityType.DIAGNOSTIC if etype is EntityType.CONFIG else EntityType.CONFIG
        part = E.pick("own", [0, 1, 2, 3])
        if kind in ("enum", "switch") and part:
            kw["entity_platform"] = EntityPlatform.NUMBER
        for a in own:
            if not part or a in ("device_class", "enum", "attribute_value", "args", "kwargs"):
                continue
            kw[a] = {1: 0, 2: 3, 3: -100}[part] + (NUMBERS.index(a) if part > 1 else 0) if a in NUMBERS else OTHERS[a]
        if kind == "command_button" and part:
            kw["command_args"], kw["command_kwargs"] = (1, part), {"on_time": 7}
            want["args"], want["kwargs"] = kw["command_args"], kw["command_kwargs"]
    want.update({k: v for k, v in kw.items() if k in want})
    want = {names.get(k, k): v for k, v in want.items()}
    want["command_name" if kind == "command_button" else "attribute_name"] = args[0]
    want["endpoint_id"], want["cluster_id"], want["cluster_type"] = key
    ok = (tk or dc) and name is not None
    if not ok:
        E.check(E.raises((ValueError, TypeError), lambda: getattr(b, kind)(*args, cluster_id=key[1], **kw)), "an entity nobody could name is refused")
        E.reach("unnamed")
        return key, None
    E.check(getattr(b, kind)(*args, cluster_id=key[1], **kw) is b, "declarations follow each other")
    return key, want


def entities(E, kinds, given):
    """The entities of a quirk reach the user as they were declared, each under its endpoint, cluster and side."""
    app, dev = device(E)
    registry = DeviceRegistry()
    b = QuirkBuilder("manufacturer", "model", registry=registry)
    want = {}
    for i, kind in enumerate(kinds):
        key, e = entity(E, b, kind, i, given)
        if e is not None:
            want.setdefault(key, []).append(e)
    cloned = given == "few" and E.bool("cloned")
    if cloned:
        source, b = b, b.clone()
        b.applies_to("manufacturer", "model")
        then = E.pick("then", [None, "adds", "binary_sensor"])
        if then == "adds":
            b.adds(0xFC00)
        elif then is not None:
            b.binary_sensor("late", 0x0500, endpoint_id=2, device_class=BinarySensorDeviceClass.DOOR, fallback_name="Late")
            want.setdefault((2, 0x0500, ClusterType.Server), []).append({"attribute_name": "late"})
    triggers = {("press", "button"): {"command": "on", "endpoint_id": 1}, ("hold", "button"): {"command": "off"}}
    told = E.pick("triggers", [0, 1, 2]) if given == "few" else 0
    for k in list(triggers)[:told]:
        b.device_automation_triggers({k: triggers[k]})
    b.add_to_registry()
    got = registry.get_device(dev)
    same_device(E, got, dev)
    has_got = {k: v for k, v in got.exposes_metadata.items() if v}
    E.check(set(has_got) == set(want), "entities under the endpoint, cluster and side they were declared for")
    for k, es in want.items():
        E.check(len(has_got[k]) == len(es), "as many as were declared")
        for m, e in zip(has_got[k], es):
            for a, v in e.items():
                x = getattr(m, a)
                E.check(dict(x) == v if a == "kwargs" else x == v, f"an entity says another {a}")
    E.check({k: dict(v) for k, v in got.device_automation_triggers.items()} == {k: triggers[k] for k in list(triggers)[:told]} if told else not getattr(got, "device_automation_triggers", None), "the triggers given")
    # another device of the same kind has its own
    again = world.add_device(app, ieee=world.IEEES[2], nwk=0x4444, endpoints=(1, 2), ins=(0x0000, 0x0006), outs=(0x0006, 0x0019))
    again.manufacturer, again.model = dev.manufacturer, dev.model
    other = registry.get_device(again)
    E.check({k: len(v) for k, v in other.exposes_metadata.items() if v} == {k: len(v) for k, v in want.items()}, "each device has all of them")
    E.check({k: len(v) for k, v in got.exposes_metadata.items() if v} == {k: len(v) for k, v in want.items()}, "and none of another device")
    if cloned:
        # the quirk it was made from has nothing of what came later
        source.applies_to("manufacturer", "first").add_to_registry()
        of = world.add_device(app, ieee=world.IEEES[3], nwk=0x5555, endpoints=(1, 2), ins=(0x0000, 0x0006), outs=(0x0006, 0x0019))
        of.model = "first"
        base = registry.get_device(of)
        n = lambda x: sum(map(len, x.exposes_metadata.values()))
        E.check(E.all(n(base) == n(got) - (then == "binary_sensor"), not getattr(base, "device_automation_triggers", None),
                      (0xFC00 in got.endpoints[1].in_clusters) == (then == "adds"), 0xFC00 not in base.endpoints[1].in_clusters), "a quirk is what it was when it was cloned")
        E.reach("cloned")
    E.reach("entities")


def units(tier):
    out = [("v1", v1, {"names": False}), ("v1/names", v1, {"names": True})]
    for w in ("misc", "adds", "removes", "replaces", "everywhere", "adds+removes", "adds+replaces", "adds+everywhere", "removes+replaces", "replaces+everywhere"):
        out.append((f"v2/{w}", v2, {"what": w}))
    if tier != "quick":
        out.append(("v2/all", v2, {"what": "all"}))
    for how in ("v1", "v2"):
        for i, ask in enumerate(ASKS):
            out.append((f"constants/{how}/{i}", constants, {"how": how, "ask": ask}))
    for op in ("read", "write", "undivided", "configure", "command", "call", "client"):
        out.append((f"codes/{op}", codes, {"op": op}))
    for how in ("v1", "v2"):
        out.append((f"configuration/{how}", configuration, {"how": how}))
    for k in ENTITIES:
        out.append((f"entities/{k}", entities, {"kinds": (k,), "given": "many"}))
    for pair in (("sensor", "switch"), ("number", "command_button"), ("binary_sensor", "write_attr_button")):
        out.append((f"entities/{'+'.join(pair)}", entities, {"kinds": pair, "given": "few"}))
    return out
