"""Which quirk takes over a device."""

import pathlib

import zigpy.exceptions
import zigpy.quirks
import zigpy.quirks.v2
import zigpy.types as t
from props import world
from zigpy.quirks.registry import DeviceRegistry
from zigpy.quirks.v2 import QuirkBuilder

BOUNDS = ("signatures over up to 2 endpoints with any profiles and device types, every part of a signature there or not, clusters out of three; up to 3 quirks of "
          "every specificity in any order of registration, each fitting or not; up to 3 filters with any answers; removal and purging of any of them")
OUTSIDE = "quirks that fail while they are constructed; more than 3 quirks of one device"
REACH = ["matches", "differs", "first", "none", "again", "v2", "v2_filtered", "v2_several", "v2_falls_back", "custom", "removed", "purged", "kept", "half", "own"]

CLUSTERS = (0x0000, 0x0006, 0xFC00)


def device(E, app=None, endpoints=(1,)):
    E.loop()
    app = app or world.make_app()
    dev = world.add_device(app, endpoints=endpoints, ins=(), outs=())
    return app, dev


def quirk(signature):
    """A quirk that is registered nowhere yet."""
    class Quirk(zigpy.quirks.CustomDevice):
        replacement = {"endpoints": {}}

    Quirk.signature = signature
    return Quirk


def subset(E, name):
    return E.pick(name, [(), (0x0006,), (0x0000, 0x0006), (0x0000, 0x0006, 0xFC00)])


def signature(E, what):
    """A signature fits exactly when all it says is so, and the endpoints and clusters are just the ones it lists."""
    app, dev = device(E, endpoints=(1, 2))
    sig, want = {}, []
    if what == "names":
        dev.model, dev.manufacturer = E.pick("model", ["a", "b", None]), E.pick("manufacturer", ["m", None])
        if E.bool("by_model"):
            sig["model"] = E.pick("sig_model", ["a", "b"])
            want.append(dev.model == sig["model"])
        if E.bool("by_manufacturer"):
            sig["manufacturer"] = "m"
            want.append(dev.manufacturer == "m")
        sig["endpoints"] = {1: {}, 2: {}}
    elif what == "endpoints":
        ids = E.pick("ids", [(), (1,), (2,), (1, 2), (1, 2, 3), (0, 1, 2)])
        have = E.pick("have", [(), (1,), (1, 2)])
        for e in (1, 2):
            if e not in have:
                del dev.endpoints[e]
        if E.bool("described"):
            sig["endpoints"] = {i: {} for i in ids}
            want.append(tuple(ids) == have)
        else:
            want.append(False)
    elif what == "types":
        sig["endpoints"] = {}
        for e in (1, 2):
            ep = dev.endpoints[e]
            ep.profile_id, ep.device_type = E.bits(f"profile{e}", 16), E.bits(f"type{e}", 16)
            d = sig["endpoints"][e] = {}
            if E.bool(f"by_profile{e}"):
                d["profile_id"] = E.bits(f"sig_profile{e}", 16)
                want.append(d["profile_id"] == ep.profile_id)
            if E.bool(f"by_type{e}"):
                d["device_type"] = E.bits(f"sig_type{e}", 16)
                want.append(d["device_type"] == ep.device_type)
    else:
        sig["endpoints"] = {1: {}, 2: {}}
        e = E.pick("endpoint", [1, 2])
        ep = dev.endpoints[e]
        for side, add in (("input", ep.add_input_cluster), ("output", ep.add_output_cluster)):
            have = subset(E, f"have_{side}")
            for c in have:
                add(c)
            if E.bool(f"lists_{side}"):
                sig["endpoints"][e][f"{side}_clusters"] = listed = list(subset(E, f"sig_{side}"))
                want.append(tuple(listed) == have)
            else:
                want.append(not have)
    expected = E.all(True, *want)
    E.check(zigpy.quirks.signature_matches(sig)(dev) == expected, "a signature fits exactly if everything it says is so")
    Q = quirk(sig)
    registry = DeviceRegistry()
    registry.add_to_registry(Q)
    got = registry.get_device(dev)
    E.check((type(got) is Q) == expected, "a quirk takes over exactly if its signature fits")
    if expected:
        E.check(E.all(got is not dev, got.ieee == dev.ieee, got.nwk == dev.nwk), "the custom device is the same device")
        E.reach("matches")
    else:
        E.check(got is dev, "a device without a quirk is left as it is")
        E.reach("differs")


def own(E):
    """What a device says of itself is a signature: it fits the device, and another one only if that is alike."""
    app, dev = device(E, endpoints=(1, 2))
    twin = world.add_device(app, ieee=world.IEEES[1], nwk=0x4321, endpoints=(1, 2), ins=(), outs=())
    differs = E.pick("differs", [None, "model", "manufacturer", "profile_id", "device_type", "in", "out", "endpoint"])
    e = E.pick("endpoint", [1, 2])
    for d in (dev, twin):
        d.model, d.manufacturer = "a", E.pick("manufacturer", ["m", None]) if d is dev and differs is None else "m"
        for i in (1, 2):
            ep = d.endpoints[i]
            ep.profile_id, ep.device_type = 0x0104, i
            ep.add_input_cluster(6)
            ep.add_output_cluster(0x19)
    if differs is None:
        twin.manufacturer = dev.manufacturer
    v = E.bits("value", 16)
    if differs in ("model", "manufacturer"):
        setattr(dev, differs, "another")
    elif differs in ("profile_id", "device_type"):
        E.assume(v != getattr(twin.endpoints[e], differs))
        setattr(dev.endpoints[e], differs, v)
    elif differs == "in":
        dev.endpoints[e].add_input_cluster(0xFC00)
    elif differs == "out":
        dev.endpoints[e].add_output_cluster(0xFC00)
    elif differs == "endpoint":
        del dev.endpoints[e]
    sig = dev.get_signature()
    E.check(E.all(sig.get("model") == dev.model, sig.get("manufacturer") == dev.manufacturer, set(sig["endpoints"]) == set(dev.endpoints) - {0}), "names and endpoints")
    E.check(sig["node_desc"]["manufacturer_code"] == dev.node_desc.manufacturer_code, "node descriptor")
    for i, d in sig["endpoints"].items():
        ep = dev.endpoints[i]
        E.check(E.all(d["profile_id"] == ep.profile_id, d["device_type"] == ep.device_type, set(d["input_clusters"]) == set(ep.in_clusters), set(d["output_clusters"]) == set(ep.out_clusters)), "endpoint")
    registry = DeviceRegistry()
    Q = quirk(sig)
    registry.add_to_registry(Q)
    E.check(type(registry.get_device(dev)) is Q, "its own signature fits a device")
    E.check((type(registry.get_device(twin)) is Q) == (differs is None), "and another one just if it is alike")
    E.reach("own")


#: from the most to the least specific
SLOTS = [("manufacturer", "model"), ("manufacturer", None), (None, "model"), (None, None)]


def order(E, slots, models_info):
    """The most specific quirk that fits wins; of equally specific ones, the one registered last."""
    app, dev = device(E)
    dev.endpoints[1].profile_id = 0x0104
    registry = DeviceRegistry()
    cands = []
    for i, s in enumerate(slots):
        manuf, model = SLOTS[s]
        prof = E.int(f"profile{i}", 0x0104, 0x0105)
        sig = {"endpoints": {1: {"profile_id": prof}}}
        if models_info:
            sig["models_info"] = [("other", "thing"), (manuf, model)]
        else:
            if manuf:
                sig["manufacturer"] = manuf
            if model:
                sig["model"] = model
        Q = quirk(sig)
        registry.add_to_registry(Q)
        cands.append((s, i, prof, Q))
    E.check(E.all(*[Q in registry for s, _, _, Q in cands]) if not models_info else True, "what is registered is known")
    if E.bool("twice"):
        registry.add_to_registry(cands[0][3])  # changes nothing
        E.reach("again")
    gone = None
    if E.bool("remove"):
        gone = E.choice("gone", len(cands))
        registry.remove(cands[gone][3])
        E.check(models_info or cands[gone][3] not in registry, "what was removed is not known")
        E.reach("removed")
    want = None
    for s, i, prof, Q in sorted(cands, key=lambda c: (c[0], -c[1])):
        if i != gone and prof == 0x0104:
            want = Q
            break
    got = registry.get_device(dev)
    if want is None:
        E.check(got is dev, "a device without a quirk is left as it is")
        E.reach("none")
    else:
        E.check(type(got) is want, "the most specific and latest quirk that fits takes over")
        E.reach("first")
        E.check(registry.get_device(got) is got, "a custom device stays what it is")
        E.reach("custom")


def v2(E, n, v1):
    """Entries for a manufacturer and model apply if all their filters agree; two of them are too many."""
    app, dev = device(E)
    registry = DeviceRegistry()
    Q = quirk({"endpoints": {1: {}}, "manufacturer": "manufacturer", "model": "model"})
    if v1:
        registry.add_to_registry(Q)
    fits, entries = [], []
    for i in range(n):
        ours = E.pick(f"for{i}", [("manufacturer", "model"), ("manufacturer", "other")])
        b = QuirkBuilder(*ours, registry=registry).friendly_name(manufacturer=f"m{i}", model="x")
        if E.bool(f"also{i}"):
            b.applies_to("manufacturer", "third")
        answers = [E.pick(f"filter{i}{j}", [True, False]) for j in range(E.choice(f"filters{i}", 3))]
        for a in answers:
            b.filter(lambda d, a=a: d is dev and a)
        entries.append(b.add_to_registry())
        fits.append(ours[1] == "model" and all(answers))
    which = [i for i in range(n) if fits[i]]
    if len(which) > 1:
        E.check(E.raises(zigpy.exceptions.MultipleQuirksMatchException, registry.get_device, dev), "several entries cannot apply")
        E.reach("v2_several")
        return
    got = registry.get_device(dev)
    if which:
        E.check(E.all(isinstance(got, zigpy.quirks.v2.CustomDeviceV2), got.quirk_metadata is entries[which[0]]), "the entry that fits is applied")
        E.check(E.all(got.ieee == dev.ieee, got.nwk == dev.nwk, got in registry), "the custom device is the same device")
        E.check(registry.get_device(got) is got, "a custom device stays what it is")
        E.reach("v2")
        if E.bool("remove"):
            registry.remove(got)
            again = registry.get_device(dev)
            E.check(type(again) is Q if v1 else again is dev, "a removed entry is not applied")
            E.check(got not in registry, "a removed entry is not known")
    elif v1:
        E.check(type(got) is Q, "without an entry that fits, the older kind of quirk is used")
        E.reach("v2_falls_back")
    else:
        E.check(got is dev, "a device without a quirk is left as it is")
        E.reach("v2_filtered")


def names(E):
    """Manufacturer and model come together, and an entry is for something."""
    a, b = E.pick("a", [None, "", "m"]), E.pick("b", [None, "", "o"])
    if bool(a) != bool(b):
        E.check(E.raises(ValueError, QuirkBuilder, a, b, registry=DeviceRegistry()), "only both or none of manufacturer and model")
        E.reach("half")
        return
    registry = DeviceRegistry()
    builder = QuirkBuilder(a, b, registry=registry)
    if not a:
        E.check(E.raises(ValueError, builder.add_to_registry), "an entry that is for nothing")
        builder.applies_to("m", "o")
    copy = builder.clone(omit_man_model_data=E.bool("omit"))
    if not copy.manufacturer_model_metadata:
        E.check(E.raises(ValueError, copy.add_to_registry), "a copy without manufacturer and model")
        copy.applies_to("m2", "o2")
        where = ("m2", "o2")
    else:
        where = ("m", "o")
    entry = copy.add_to_registry()
    app, dev = device(E)
    dev.manufacturer, dev.model = where
    E.check(registry.get_device(dev).quirk_metadata is entry, "a copy is registered where the original would be")


def purge(E):
    """Purging removes exactly the quirks whose files are below a directory."""
    app, dev = device(E)
    registry = DeviceRegistry()
    here = pathlib.Path(__file__)
    root = E.pick("root", [here.parent, here.parent.parent, here.parent / "sub", pathlib.Path("/nonexistent")])
    inside = root in (here.parent, here.parent.parent)
    n1 = E.choice("v1", 3)
    for _ in range(n1):
        registry.add_to_registry(quirk({"endpoints": {1: {}}, "manufacturer": "manufacturer", "model": "model"}))
    paths = [root / "a.py", root / "b" / "c.py", pathlib.Path("/elsewhere/a.py")]
    entries = []
    for i in range(E.choice("v2", 3)):
        b = QuirkBuilder("manufacturer", "model", registry=registry).friendly_name(manufacturer=f"m{i}", model="x")
        b.quirk_file = paths[E.choice(f"file{i}", 3)]
        entries.append(b.add_to_registry())
    registry.purge_custom_quirks(root)
    left = [e for e in entries if e.quirk_file == paths[2]]
    if len(left) > 1:
        E.check(E.raises(zigpy.exceptions.MultipleQuirksMatchException, registry.get_device, dev), "quirks from elsewhere are kept")
        return
    got = registry.get_device(dev)
    if left:
        E.check(E.all(isinstance(got, zigpy.quirks.v2.CustomDeviceV2), got.quirk_metadata is left[0]), "quirks from elsewhere are kept")
        E.reach("kept")
    elif n1 and not inside:
        E.check(isinstance(got, zigpy.quirks.CustomDevice), "quirks from elsewhere are kept")
        E.reach("kept")
    else:
        E.check(got is dev, "purged quirks are not used")
        if n1 or entries:
            E.reach("purged")


def units(tier):
    out = [(f"signature/{w}", signature, {"what": w}) for w in ("names", "endpoints", "types", "clusters")]
    for slots in ((0,), (1,), (2,), (3,), (0, 0), (0, 1), (1, 0), (1, 2), (2, 1), (3, 2), (3, 3), (0, 3, 1), (2, 0, 2), (1, 3, 1)):
        for mi in (False, True):
            out.append((f"order/{''.join(map(str, slots))}{'/list' if mi else ''}", order, {"slots": slots, "models_info": mi}))
    for n in (1, 2, 3) if tier != "quick" else (1, 2):
        out += [(f"v2/{n}{'/v1' if v1 else ''}", v2, {"n": n, "v1": v1}) for v1 in (False, True)]
    out += [("names", names, {}), ("purge", purge, {}), ("own", own, {})]
    return out
