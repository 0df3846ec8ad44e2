"""Clusters know their attributes and commands, however these were declared."""

import zigpy.quirks
import zigpy.types as t
import zigpy.zcl
import zigpy.zcl.clusters.general as general
import zigpy.zcl.clusters.manufacturer_specific as ms
from props import world
from props.common import le
from zigpy.zcl import foundation as f

BOUNDS = ("every cluster identifier on either side; two attributes and two commands each way declared in every style, with any of a few identifiers, types, "
          "manufacturer marks and directions; extension of a defined cluster in every style; every combination and spelling of access rights")
OUTSIDE = "definitions with the same identifier twice in the new style (the later name wins)"
REACH = ["known", "range", "unknown", "declared", "sent", "received", "extended", "duplicate", "access", "bad_access"]


def ids(E, lo, hi):
    """Every identifier leads to the cluster defined for it."""
    E.loop()
    app = world.make_app()
    ep = world.add_device(app, ins=(), outs=()).endpoints[1]
    cid = E.int("id", lo, hi)
    server = E.bool("server")
    known = zigpy.zcl.Cluster._registry
    cl = (ep.add_input_cluster if server else ep.add_output_cluster)(cid)
    E.check(E.all(cl.cluster_id == cid, cl.is_server == server, cl.is_client == (not server), cl.endpoint is ep), "a cluster with the identifier, of the side")
    E.check((cid in ep.in_clusters) == server and (cid in ep.out_clusters) == (not server), "it is listed on its side")
    E.check((ep.add_input_cluster if server else ep.add_output_cluster)(cid) is cl, "and only once")
    if type(cl).cluster_id is not None:
        E.check(E.all(type(cl).cluster_id == cid, not issubclass(type(cl), zigpy.quirks.CustomCluster)), "of the class defined for it")
        E.reach("known")
    else:
        E.check(E.not_(E.any(*[k == cid for k in known if lo <= k <= hi])), "a defined cluster is used")
        if cid >= 0xFC00:
            E.check(type(cl) is ms.ManufacturerSpecificCluster, "a cluster of a maker")
            E.reach("range")
        else:
            E.check(type(cl) is zigpy.zcl.Cluster, "a cluster nothing is known about")
            E.reach("unknown")
    if cl.ep_attribute is not None and server:
        E.check(getattr(ep, cl.ep_attribute) is cl, "it can be reached by name")


STYLES = ["old", "old_defs", "new"]
TYPES = [(t.uint8_t, 0x20), (t.uint16_t, 0x21), (t.Bool, 0x10), (t.CharacterString, 0x42)]


def define(E, base=zigpy.zcl.Cluster, style=None):
    """A cluster with attributes `one`, `two` and commands `ask`, `act` and, in the other direction, `told`."""
    style = style or E.pick("style", STYLES)
    a1, a2 = E.pick("attribute_ids", [(0x0000, 0x0001), (0x8001, 0x0002), (0xFFFD, 0x0000)])
    m1, m2 = E.pick("specific1", [False, True]), E.pick("specific2", [False, True])
    t1, z1 = TYPES[E.choice("type1", 4)]
    c1, c2, c3 = E.pick("command_ids", [(0, 1, 0), (0xFE, 0x00, 0xFE), (7, 3, 9)])
    ns = {"cluster_id": 0x7F00, "ep_attribute": "mine", "_skip_registry": True}
    if style == "old":
        ns["attributes"] = {a1: ("one", t1, True) if m1 else ("one", t1), a2: ("two", t.uint8_t, True) if m2 else ("two", t.uint8_t)}
        ns["server_commands"] = {c1: ("ask", (t.uint8_t,), False), c2: ("act", (), False)}
        ns["client_commands"] = {c3: ("told", (t.uint16_t, t.uint8_t), True)}
    elif style == "old_defs":
        ns["attributes"] = {a1: f.ZCLAttributeDef("one", type=t1, is_manufacturer_specific=m1), a2: f.ZCLAttributeDef("two", type=t.uint8_t, is_manufacturer_specific=m2)}
        ns["server_commands"] = {c1: f.ZCLCommandDef("ask", {"param1": t.uint8_t}, False), c2: f.ZCLCommandDef("act", {}, False)}
        ns["client_commands"] = {c3: f.ZCLCommandDef("told", {"param1": t.uint16_t, "param2": t.uint8_t}, True)}
    else:
        ns["AttributeDefs"] = type("AttributeDefs", (f.BaseAttributeDefs,), {
            "one": f.ZCLAttributeDef(id=a1, type=t1, is_manufacturer_specific=m1), "two": f.ZCLAttributeDef(id=a2, type=t.uint8_t, is_manufacturer_specific=m2)})
        ns["ServerCommandDefs"] = type("ServerCommandDefs", (f.BaseCommandDefs,), {
            "ask": f.ZCLCommandDef(id=c1, schema={"param1": t.uint8_t}, direction=False), "act": f.ZCLCommandDef(id=c2, schema={}, direction=False)})
        ns["ClientCommandDefs"] = type("ClientCommandDefs", (f.BaseCommandDefs,), {
            "told": f.ZCLCommandDef(id=c3, schema={"param1": t.uint16_t, "param2": t.uint8_t}, direction=True)})
    cls = type("Mine", (base,), ns)
    return cls, [("one", a1, t1, z1, m1), ("two", a2, t.uint8_t, 0x20, m2)], (c1, c2, c3)


def declared(E):
    loop = E.loop()
    app = world.make_app()
    dev = world.add_device(app)
    before = dict(zigpy.zcl.Cluster._registry)
    cls, attrs, (c1, c2, c3) = define(E)
    E.check(zigpy.zcl.Cluster._registry == before, "a cluster kept out of the registry stays out")
    ep = dev.endpoints[1]
    cl = ep.add_input_cluster(0x7F00, cls(ep))
    E.check(E.all(cl.cluster_id == 0x7F00, ep.mine is cl, sorted(cl.attributes) == sorted(a[1] for a in attrs), sorted(cl.attributes_by_name) == ["one", "two"]), "the attributes declared")
    for name, i, ty, z, m in attrs:
        d = cl.find_attribute(name)
        E.check(E.all(d.id == i, d.name == name, d.type is ty, d.zcl_type == z, d.is_manufacturer_specific == m, cl.find_attribute(i) == d, cl.attributes[i] == d,
                      getattr(cls.AttributeDefs, name) == d), "an attribute is the same by number and by name")
    E.check(sorted(d.name for d in cls.AttributeDefs) == ["one", "two"], "definitions can be listed")
    E.check(E.all(sorted(cl.server_commands) == sorted((c1, c2)), sorted(cl.client_commands) == [c3], sorted(cl.commands_by_name) == ["act", "ask", "told"]), "the commands declared")
    for name, i, where, d in (("ask", c1, cl.server_commands, f.Direction.Client_to_Server), ("act", c2, cl.server_commands, f.Direction.Client_to_Server),
                              ("told", c3, cl.client_commands, f.Direction.Server_to_Client)):
        E.check(E.all(where[i].id == i, where[i].name == name, where[i].direction == d, cl.commands_by_name[name] == where[i]), "a command is the same by number and by name")
    E.reach("declared")
    x, y = E.bits("x", 8), E.bits("y", 16)
    k = E.choice("use", 4)
    if k < 2:
        task = loop.spawn(cl.ask(x) if k else cl.ask(param1=x))
        p = app.sent[0]
        E.check(p.data.serialize() == bytes([0x01, p.tsn, c1, x]), "a command called by name")
        task.cancel()
        loop.drain()
        E.reach("sent")
    else:
        got = []

        class L:
            def cluster_command(self, tsn, command_id, args):
                got.append((command_id, list(args)))

        cl.add_listener(L())
        if k == 2:
            app.packet_received(world.packet(dev, world.zcl(0x09, 5, c3, le(E, y, 2) + bytes([x])), cluster=0x7F00))
            want = (c3, [y, x])
        else:
            app.packet_received(world.packet(dev, world.zcl(0x01, 5, c1, bytes([x])), cluster=0x7F00))
            want = (c1, [x])
        loop.drain()
        E.check(len(got) == 1 and got[0][0] == want[0], "a command received")
        E.check(E.all(len(got[0][1]) == len(want[1]), *[g == w for g, w in zip(got[0][1], want[1])]), "its parameters")
        E.reach("received")


def extended(E):
    """A quirk's cluster that extends a defined one has both, and the defined one stays as it is."""
    E.loop()
    app = world.make_app()
    dev = world.add_device(app)
    base = general.OnOff
    before = {i: (d.name, d.type, d.zcl_type) for i, d in base.attributes.items()}
    commands = {i: c.name for i, c in base.server_commands.items()}
    names = dict(base.attributes_by_name)
    style = E.pick("style", ["copy", "new", "none"])
    clash = E.bool("overrides")
    i, n = (0x4001, "own_time") if clash else (0xF000, "own")
    ns = {}
    if style == "copy":
        ns["attributes"] = base.attributes.copy()
        ns["attributes"][i] = (n, t.uint32_t)
        ns["server_commands"] = base.server_commands.copy()
        ns["server_commands"][0x7E] = f.ZCLCommandDef("own_cmd", {"param1": t.uint8_t}, False)
    elif style == "new":
        ns["AttributeDefs"] = type("AttributeDefs", (base.AttributeDefs,), {("on_time" if clash else n): f.ZCLAttributeDef(id=i, type=t.uint32_t)})
        ns["ServerCommandDefs"] = type("ServerCommandDefs", (base.ServerCommandDefs,), {"own_cmd": f.ZCLCommandDef(id=0x7E, schema={"param1": t.uint8_t}, direction=False)})
    Ext = type("Ext", (zigpy.quirks.CustomCluster, base), ns)
    cl = Ext(dev.endpoints[1])
    want = {k: v for k, v in before.items()}
    if style != "none":
        want[i] = (n if style == "copy" or not clash else "on_time", t.uint32_t, 0x23)
    E.check({k: (d.name, d.type, d.zcl_type) for k, d in cl.attributes.items()} == want, "its own attributes and those of the cluster it extends")
    E.check(sorted(cl.attributes_by_name) == sorted(v[0] for v in want.values()), "by name too")
    E.check({k: c.name for k, c in cl.server_commands.items()} == {**commands, **({0x7E: "own_cmd"} if style != "none" else {})}, "its own commands and those of the cluster it extends")
    E.check(E.all(cl.cluster_id == 6, cl.ep_attribute == "on_off"), "it stands for the same cluster")
    E.check(E.all({k: (d.name, d.type, d.zcl_type) for k, d in base.attributes.items()} == before, {k: c.name for k, c in base.server_commands.items()} == commands,
                  base.attributes_by_name == names, zigpy.zcl.Cluster._registry[6] is base), "the cluster it extends is not changed")
    other = general.OnOff(dev.endpoints[1])
    E.check(other.find_attribute(0x4001).name == "on_time" and other.find_attribute("on_time").type is t.uint16_t, "nor any other")
    E.reach("extended")


def duplicate(E):
    """Two attributes, or two commands of one direction, with one name are refused."""
    same = E.bool("same")
    what = E.choice("what", 3)
    second = "one" if same else "two"
    ns = {"cluster_id": 0x7F01, "_skip_registry": True}
    if what == 0:
        ns["attributes"] = {0: ("one", t.uint8_t), 1: (second, t.uint8_t)}
    else:
        ns["server_commands" if what == 1 else "client_commands"] = {0: ("one", (), what == 2), 1: (second, (), what == 2)}
    E.check(E.raises(TypeError, type, "Dup", (zigpy.zcl.Cluster,), ns) == same, "two definitions of one name")
    E.reach("duplicate")


PARTS = [("r", 1), ("w", 2), ("*w", 4), ("p", 8), ("s", 16)]


def access(E):
    """Access rights are just those spelled out, in any order."""
    n = E.choice("n", 4 if E.tier == "quick" else 6)
    text, want = "", f.ZCLAttributeAccess.NONE
    for k in range(n):
        s, v = PARTS[E.choice(f"part{k}", 5)]
        text, want = text + s, want | f.ZCLAttributeAccess(v)
    if E.bool("bad"):
        at = E.choice("at", len(text) + 1)
        bad = E.pick("junk", ["x", "R", "*", " "])
        text = text[:at] + bad + text[at:]
        if bad == "*" and text[at + 1:at + 2] == "w":
            E.assume(False)
        E.check(E.raises(ValueError, f.ZCLAttributeDef, id=1, type=t.uint8_t, access=text), "unknown access rights are refused")
        E.reach("bad_access")
        return
    E.check(f.ZCLAttributeDef(id=1, type=t.uint8_t, access=text).access == want, "access rights")
    E.reach("access")


def units(tier):
    out = [(f"ids/{lo:04x}", ids, {"lo": lo, "hi": hi}) for lo, hi in ((0, 0xFF), (0x100, 0x3FF), (0x400, 0x5FF), (0x600, 0xFFF), (0x1000, 0xFBFF), (0xFC00, 0xFFFF))]
    out += [(n, globals()[n], {}) for n in ("declared", "extended", "duplicate", "access")]
    return out
