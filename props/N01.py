"""Backups and settings survive being written as JSON and read back."""

import datetime

import zigpy.backups
import zigpy.state
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import world
from props.common import be, le

BOUNDS = ("any addresses, keys, counters, sequence numbers and other settings; up to 3 known devices, children and link keys in any combination, of which one has an arbitrary "
          "address; every channel and channel mask out of 4; every combination of missing optional fields in the interchange format")
OUTSIDE = "JSON encoding itself; stack specific content is passed on as it is"
REACH = ["dict", "open", "version0", "minimal", "z2m", "invalid", "child_only", "key_only", "nwk_only", "hex"]

LT = [zdot.LogicalType.Coordinator, zdot.LogicalType.Router, zdot.LogicalType.EndDevice]
NAMES = ["coordinator", "router", "end_device"]
TIMES = [datetime.datetime(2021, 2, 8, 19, 35, 24, 761000, tzinfo=datetime.timezone.utc), datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc),
         datetime.datetime(2030, 12, 31, 23, 59, 59, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=-5)))]
VARIANTS = [(("m", "f", "1"), [11], {}, TIMES[0]), ((None, None, None), [15, 20, 25], {"zstack": {"tclk_seed": "00"}}, TIMES[1]),
            (("m", None, "1"), list(range(11, 27)), {}, TIMES[2]), (("m", "f", None), [], {"a": [1, 2]}, TIMES[0])]


def eui(E, name, symbolic=True):
    raw = E.bytes(name, 8)
    return t.EUI64.deserialize(raw)[0], raw


def key(E, name):
    raw = E.bytes(name, 16)
    return t.KeyData.deserialize(raw)[0], raw


def hexs(raw, rev=False):
    raw = raw[::-1] if rev else raw
    return raw.hex()


def build(E, table, lt=0, free=True):
    """A backup with arbitrary content; `table`: per device (child, nwk known, link key)."""
    ni, net = zigpy.state.NodeInfo(), zigpy.state.NetworkInfo()
    r = {}
    ni.ieee, r["ieee"] = eui(E, "ieee")
    ni.nwk = t.NWK(E.bits("nwk", 16))
    ni.logical_type = LT[lt]
    about, mask, stack, when = E.pick("variant", VARIANTS)
    ni.model, ni.manufacturer, ni.version = about
    ext, r["ext"] = eui(E, "ext")
    net.extended_pan_id = t.ExtendedPanId(ext)
    net.pan_id = t.PanId(E.bits("pan", 16))
    net.nwk_update_id = t.uint8_t(E.bits("update", 8))
    net.nwk_manager_id = t.NWK(E.bits("manager", 16))
    net.channel = t.uint8_t(E.int("channel", 11, 26))
    net.channel_mask = t.Channels.from_channel_list(mask)
    net.security_level = t.uint8_t(E.bits("security", 8))
    k, r["key"] = key(E, "key")
    net.network_key = zigpy.state.Key(key=k, tx_counter=t.uint32_t(E.bits("tx", 32)), rx_counter=t.uint32_t(0), seq=t.uint8_t(E.bits("seq", 8)), partner_ieee=t.EUI64.UNKNOWN)
    k, r["tc"] = key(E, "tc")
    p, r["tc_ieee"] = eui(E, "tc_ieee")
    net.tc_link_key = zigpy.state.Key(key=k, tx_counter=t.uint32_t(E.bits("tc_tx", 32)), rx_counter=t.uint32_t(0), seq=t.uint8_t(0), partner_ieee=p)
    for i, (child, nwk, link) in enumerate(table):
        ieee = world.IEEES[i]
        if i == 0:
            # its first byte on the air is arbitrary
            low = E.bits("low", 8)
            ieee = t.EUI64.deserialize(le(E, low, 1) + b"\x66\x55\x44\x33\x22\x11\x0f")[0]
        if child:
            net.children.append(ieee)
        if nwk:
            net.nwk_addresses[ieee] = t.NWK(E.bits("dev_nwk", 16))
        if link:
            k, _ = key(E, "link")
            net.key_table.append(zigpy.state.Key(key=k, tx_counter=t.uint32_t(E.bits("ltx", 32)), rx_counter=t.uint32_t(E.bits("lrx", 32)),
                                                 seq=t.uint8_t(E.bits("lseq", 8)), partner_ieee=ieee))
    net.stack_specific = stack
    net.metadata = {"zigpy": {"commit": "abc"}}
    net.source = "zigpy@0"
    return zigpy.backups.NetworkBackup(backup_time=when, network_info=net, node_info=ni), r


def raw_eq(E, a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and E.all(*[x == y for x, y in zip(a, b)])


def key_eq(E, a, b):
    return E.all(raw_eq(E, a.key, b.key), a.tx_counter == b.tx_counter, a.rx_counter == b.rx_counter, a.seq == b.seq, raw_eq(E, a.partner_ieee, b.partner_ieee))


def same(E, a, b, open_format=False):
    x, y = a.network_info, b.network_info
    E.check(E.all(raw_eq(E, a.node_info.ieee, b.node_info.ieee), a.node_info.nwk == b.node_info.nwk), "our own addresses")
    E.check(a.node_info.logical_type == b.node_info.logical_type, "our own kind")
    E.check((a.node_info.model, a.node_info.manufacturer, a.node_info.version) == (b.node_info.model, b.node_info.manufacturer, b.node_info.version), "what we are")
    E.check(a.backup_time == b.backup_time and a.version == b.version, "time and version")
    E.check(E.all(raw_eq(E, x.extended_pan_id, y.extended_pan_id), x.pan_id == y.pan_id), "the network's identifiers")
    E.check(E.all(x.nwk_update_id == y.nwk_update_id, x.channel == y.channel, x.security_level == y.security_level), "the network's settings")
    E.check(x.nwk_manager_id == y.nwk_manager_id, "the network manager")
    E.check(x.channel_mask == y.channel_mask, "the channel mask")
    E.check(key_eq(E, x.network_key, y.network_key), "the network key")
    E.check(key_eq(E, x.tc_link_key, y.tc_link_key), "the trust center's key")
    E.check(len(x.key_table) == len(y.key_table), "the link keys")
    for k in x.key_table:
        E.check(E.any(*[key_eq(E, k, j) for j in y.key_table]), "the link keys")
    E.check(len(x.children) == len(y.children), "the children")
    for c in x.children:
        E.check(E.any(*[raw_eq(E, c, d) for d in y.children]), "the children")
    E.check(len(x.nwk_addresses) == len(y.nwk_addresses), "the short addresses")
    for i, n in x.nwk_addresses.items():
        E.check(E.any(*[E.all(raw_eq(E, i, j), n == m) for j, m in y.nwk_addresses.items()]), "the short addresses")
    E.check((x.stack_specific, x.metadata, x.source) == (y.stack_specific, y.metadata, y.source), "stack specific settings")


def plain(obj):
    """Only what JSON knows."""
    if isinstance(obj, dict):
        return all(isinstance(k, str) for k in obj) and all(plain(v) for v in obj.values())
    if isinstance(obj, list):
        return all(plain(v) for v in obj)
    return obj is None or isinstance(obj, (str, int, bool, float))


def roundtrip(E, table, lt, form):
    backup, raw = build(E, table, lt)
    if form == "dict":
        obj = backup.as_dict()
        E.check(obj["network_info"]["pan_id"] == hexs(le(E, backup.network_info.pan_id, 2), True).upper(), "numbers are written in hexadecimal")
        E.reach("hex")
    else:
        obj = backup.as_open_coordinator_json()
        E.check(obj["coordinator_ieee"] == hexs(raw["ieee"], True), "addresses are written most significant byte first")
        E.check(obj["extended_pan_id"] == hexs(raw["ext"], True), "addresses are written most significant byte first")
        E.check(obj["network_key"]["key"] == hexs(raw["key"]), "keys are written as they are")
        E.check(obj["pan_id"] == hexs(le(E, backup.network_info.pan_id, 2), True), "short addresses too")
        E.check(E.all(obj["network_key"]["frame_counter"] == backup.network_info.network_key.tx_counter, obj["channel"] == backup.network_info.channel), "numbers are numbers")
        E.check(len(obj["devices"]) == len([x for x in table if any(x)]), "every device is listed once")
    E.check(plain(obj), "made of what JSON knows")
    again = zigpy.backups.NetworkBackup.from_dict(obj)
    same(E, backup, again)
    E.check(again.is_compatible_with(backup), "both are compatible")
    E.reach(form)
    for c, n, k in table:
        if c and not n and not k:
            E.reach("child_only")
        if k and not n and not c:
            E.reach("key_only")
        if n and not c and not k:
            E.reach("nwk_only")


TABLES = [((0, 0, 1),), ((1, 0, 0), (0, 1, 0)), ((1, 1, 1), (1, 0, 1)), ((0, 1, 1), (0, 0, 1)), ((1, 1, 0), (1, 1, 1), (0, 1, 0)), ()]


def version0(E, absent):
    """Backups written before the format had a version."""
    backup, _ = build(E, TABLES[2])
    obj = backup.as_dict()
    for f in ("model", "manufacturer", "version"):
        del obj["node_info"][f]
    if absent:
        del obj["version"]
    else:
        obj["version"] = 0
    before = sorted(obj["node_info"])
    again = zigpy.backups.NetworkBackup.from_dict(obj)
    E.check(sorted(obj["node_info"]) == before, "what was read is not changed")
    backup.node_info.model = backup.node_info.manufacturer = backup.node_info.version = None
    same(E, backup, again)
    E.reach("version0")


def minimal(E, drop):
    """The interchange format with optional parts left out."""
    raw = {n: E.bytes(n, k) for n, k in dict(ieee=8, ext=8, key=16, dev=8, link=16, tc=16, tc_ieee=8, dev_nwk=2, pan=2, nwk=2, manager=2).items()}
    num = {n: E.bits(n, b) for n, b in dict(update=8, security=8, seq=8, frame=32, ltx=32, lrx=32, lseq=8, tc_frame=32).items()}
    channel = E.int("channel", 11, 26)
    child = E.pick("child", [True, False, None])
    node = dict(ieee=hexs(raw["ieee"], True), nwk=hexs(raw["nwk"], True), type="router", model="m", manufacturer="f", version="1")
    network = dict(tc_link_key=dict(key=hexs(raw["tc"]), frame_counter=num["tc_frame"]), tc_address=hexs(raw["tc_ieee"], True), nwk_manager=hexs(raw["manager"], True))
    dev = dict(ieee_address=hexs(raw["dev"], True), nwk_address=None if drop == "dev_nwk" else hexs(raw["dev_nwk"], True), is_child=child,
               link_key=dict(key=hexs(raw["link"]), tx_counter=num["ltx"], rx_counter=num["lrx"]))
    internal = dict(creation_time="2021-02-08T19:35:24+00:00", node=node, network=network, link_key_seqs={hexs(raw["dev"], True): num["lseq"]}, extra=5)
    obj = dict(metadata=dict(version=1, format="zigpy/open-coordinator-backup", source="s@1", internal=internal), stack_specific={"zstack": {"x": 1}},
               coordinator_ieee=hexs(raw["ieee"], True), pan_id=hexs(raw["pan"], True), extended_pan_id=hexs(raw["ext"], True), nwk_update_id=num["update"],
               security_level=num["security"], channel=channel, channel_mask=[11, 26],
               network_key=dict(key=hexs(raw["key"]), sequence_number=num["seq"], frame_counter=num["frame"]), devices=[dev])
    time = datetime.datetime(2021, 2, 8, 19, 35, 24, tzinfo=datetime.timezone.utc)
    has = dict(internal=True, node=True, network=True, seqs=True, link=True, tc=True)
    if child is None:
        del dev["is_child"]
    if drop == "internal":
        del obj["metadata"]["internal"]
        has = dict(internal=False, node=False, network=False, seqs=False, link=True, tc=False)
    elif drop == "node":
        del internal["node"]
        has["node"] = False
    elif drop == "network":
        del internal["network"]
        has["network"] = has["tc"] = False
    elif drop == "tc":
        del network["tc_link_key"]
        del network["tc_address"]
        has["tc"] = False
    elif drop == "tc_frame":
        del network["tc_link_key"]["frame_counter"]
    elif drop == "manager":
        del network["nwk_manager"]
    elif drop == "seqs":
        del internal["link_key_seqs"]
        has["seqs"] = False
    elif drop == "seq":
        internal["link_key_seqs"] = {}
        has["seqs"] = False
    elif drop == "link":
        del dev["link_key"]
        has["link"] = False
    elif drop == "stack":
        del obj["stack_specific"]
    elif drop == "time":
        del internal["creation_time"]
    elif drop == "z2m":
        internal["date"] = "2021-02-08T19:35:24.761Z"
        time = datetime.datetime(2021, 2, 8, 19, 35, 24, 761000, tzinfo=datetime.timezone.utc)
        del internal["creation_time"], internal["node"], internal["network"]
        has = dict(internal=True, node=False, network=False, seqs=True, link=True, tc=False)
        E.reach("z2m")
    if drop in ("internal", "time"):
        time = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
    b = zigpy.backups.NetworkBackup.from_dict(obj)
    ni, net = b.node_info, b.network_info
    E.check(raw_eq(E, ni.ieee, raw["ieee"]), "our own address")
    E.check(ni.nwk == (num_le(raw["nwk"]) if has["node"] else 0), "our own short address (0 when it is not given)")
    E.check(ni.logical_type == (LT[1] if has["node"] else LT[0]), "our own kind (a coordinator when it is not given)")
    E.check((ni.model, ni.manufacturer, ni.version) == (("m", "f", "1") if has["node"] else (None, None, None)), "what we are")
    E.check(b.backup_time == time, "the time it was made")
    E.check(E.all(raw_eq(E, net.extended_pan_id, raw["ext"]), net.pan_id == num_le(raw["pan"]), net.nwk_update_id == num["update"], net.channel == channel,
                  net.security_level == num["security"]), "the network's settings")
    E.check(net.nwk_manager_id == (num_le(raw["manager"]) if has["network"] and drop != "manager" else 0), "the network manager (0 when it is not given)")
    E.check(list(net.channel_mask) == [11, 26], "the channel mask")
    E.check(E.all(raw_eq(E, net.network_key.key, raw["key"]), net.network_key.tx_counter == num["frame"], net.network_key.seq == num["seq"]), "the network key")
    tc = net.tc_link_key
    if has["tc"]:
        E.check(E.all(raw_eq(E, tc.key, raw["tc"]), raw_eq(E, tc.partner_ieee, raw["tc_ieee"]), tc.tx_counter == (0 if drop == "tc_frame" else num["tc_frame"])),
                "the trust center's key")
    else:
        E.check(bytes(tc.key) == b"ZigBeeAlliance09", "the well-known trust center key when none is given")
        E.check(raw_eq(E, tc.partner_ieee, raw["ieee"]), "we are the trust center when none is given")
    is_child = child is not False
    E.check(len(net.children) == (1 if is_child else 0), "devices are children unless it says otherwise")
    if is_child:
        E.check(raw_eq(E, net.children[0], raw["dev"]), "the child's address")
    if drop == "dev_nwk":
        E.check(net.nwk_addresses == {}, "no short address")
    else:
        [(i, n)] = net.nwk_addresses.items()
        E.check(E.all(raw_eq(E, i, raw["dev"]), n == num_le(raw["dev_nwk"])), "the short address")
    if has["link"]:
        [k] = net.key_table
        E.check(E.all(raw_eq(E, k.key, raw["link"]), k.tx_counter == num["ltx"], k.rx_counter == num["lrx"], raw_eq(E, k.partner_ieee, raw["dev"])), "the link key")
        E.check(k.seq == (num["lseq"] if has["seqs"] else 0), "the link key's sequence number (0 when it is not given)")
    else:
        E.check(net.key_table == [], "no link keys")
    E.check(net.stack_specific == ({} if drop == "stack" else {"zstack": {"x": 1}}), "stack specific settings")
    E.check(net.source == "s@1", "its source")
    if has["internal"]:
        E.check(net.metadata.get("extra") == 5, "other metadata is kept")
    E.reach("minimal")


def num_le(raw):
    return raw[0] | (raw[1] << 8)


def invalid(E):
    """Anything else is refused."""
    obj = E.pick("obj", [{}, {"version": 1}, {"node_info": {}}, {"a": 5, "backup_time": "x"}])
    E.check(E.raises((ValueError,), zigpy.backups.NetworkBackup.from_dict, obj), "what is no backup is refused")
    E.reach("invalid")


DROPS = ["nothing", "internal", "node", "network", "tc", "tc_frame", "manager", "seqs", "seq", "link", "stack", "time", "z2m", "dev_nwk"]


def units(tier):
    for i, tb in enumerate(TABLES):
        for form in ("dict", "open"):
            yield f"{form}-{i}", roundtrip, dict(table=tb, lt=i % 3, form=form)
    for absent in (False, True):
        yield f"version0-{int(absent)}", version0, dict(absent=absent)
    for d in DROPS:
        yield f"minimal-{d}", minimal, dict(drop=d)
    yield "invalid", invalid, {}
