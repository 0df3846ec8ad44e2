"""Settings are taken as meant, or refused; and the radio is opened accordingly."""

import asyncio

import voluptuous as vol

import zigpy.config as conf
import zigpy.config.validators as v
import zigpy.serial
import zigpy.types as t
from props import world
from zigpy.zdo.types import SimpleDescriptor

BOUNDS = ("every numeric setting with any value in a wide range around the allowed one, as a number and as text; switches in every form; keys of 15 to 17 numbers; "
          "any descriptor; serial ports with every combination of flow control settings; socket addresses with and without ports, also hanging or failing")
OUTSIDE = "deprecated settings and OTA providers (O06); numbers as text are sampled by the solver's choice of digits up to four"
REACH = ["taken", "refused", "switch", "key", "descriptor", "serial", "socket", "hang", "unwrapped", "defaults", "text"]


def config(**kw):
    return {conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}, **kw}


def validated(cfg):
    return conf.CONFIG_SCHEMA(cfg)


#: setting, inside the network, lowest and highest value, whether text is understood
NUMBERS = {
    "channel": (True, 11, 26, True),
    "key_sequence_number": (True, 0, 255, False),
    "pan_id": (True, 0, 0xFFFF, True),
    "update_id": (True, 0, 255, True),
    "topology_scan_period": (False, 20, None, False),
    "backup_period": (False, 1, None, True),
    "max_concurrent_requests": (False, 0, None, False),
}


def put(name, inside, x):
    return config(network={name: x}) if inside else config(**{name: x})


def number(E, name):
    inside, lo, hi, text = NUMBERS[name]
    x = E.int("value", -0x11000, 0x11000)
    ok = E.all(lo <= x, x <= (hi if hi is not None else 0x11000))
    try:
        got = validated(put(name, inside, x))
    except vol.Invalid:
        E.check(E.not_(ok), "a value in the range is refused")
        E.reach("refused")
        return
    E.check(ok, "a value out of the range is accepted")
    E.check((got["network"] if inside else got)[name] == x, "the value is taken as given")
    E.reach("taken")


def text(E, name):
    """Numbers may be given as text, hexadecimal behind 0x."""
    inside, lo, hi, understood = NUMBERS[name]
    x = E.pick("value", sorted({lo - 1, lo, lo + 1, 5, 15, 16, 26, 27, 200, 255, 256, 0xFFFF, 0x10000, *([hi, hi + 1] if hi is not None else [])}))
    form = E.pick("form", [str, hex, lambda n: f"0x{n:04X}" if n >= 0 else "-0x1", lambda n: f" {n} ", lambda n: f"{n:x}h", lambda n: f"{n}.5", lambda n: ""])
    s = form(x)
    plain = s.strip()
    neg = plain.startswith("-")
    value = None
    if plain.lstrip("-").isdigit():
        value = int(plain)
    elif plain.startswith("0x") and all(c in "0123456789abcdefABCDEF" for c in plain[2:]) and len(plain) > 2:
        value = int(plain[2:], 16)
    elif neg and form is hex:
        value = None  # refused or out of range, either way
    ok = understood and value is not None and lo <= value and (hi is None or value <= hi)
    try:
        got = validated(put(name, inside, s))
    except vol.Invalid:
        E.check(not ok, "a number given as text is refused")
        return
    E.check(ok, "text that is no number in the range is accepted")
    E.check((got["network"] if inside else got)[name] == value, "the value of the text")
    E.reach("text")


SWITCHES = ["topology_scan_enabled", "topology_scan_skip_coordinator", "backup_enabled", "validate_network_settings", "source_routing", "startup_energy_scan", "watchdog_enabled"]
WORDS = {"1": True, "true": True, "yes": True, "on": True, "enable": True, "0": False, "false": False, "no": False, "off": False, "disable": False}


def switch(E):
    name = E.pick("setting", SWITCHES)
    k = E.choice("kind", 4)
    if k == 0:
        x = want = E.pick("value", [True, False])
    elif k == 1:
        x = E.int("value", -2, 300)
        want = x != 0
    elif k == 2:
        w = E.pick("word", sorted(WORDS))
        x = E.pick("form", [str, str.upper, str.title, lambda s: f"  {s} "])(w)
        want = WORDS[w]
    else:
        x, want = E.pick("other", ["", "2", "maybe", "yess", "o n", None, [], {}, 1.5]), None
    try:
        got = validated(config(**{name: x}))[name]
    except vol.Invalid:
        E.check(want is None, "a switch position is refused")
        return
    E.check(want is not None, "what is no switch position is accepted")
    E.check(E.all(got == want, isinstance(got, bool) if k != 1 else True), "the position meant")
    E.reach("switch")


def key(E):
    n = E.pick("n", [0, 15, 16, 17])
    where = E.pick("where", ["key", "tc_link_key"])
    data = list(E.bytes("data", n))
    if n and E.bool("odd"):
        i = E.pick("i", [0, n - 1])
        data[i] = E.int("byte", -300, 600)
    ok = E.all(n == 16, *[E.all(0 <= b, b <= 255) for b in data])
    try:
        got = validated(config(network={where: data}))["network"][where]
    except vol.Invalid:
        E.check(E.not_(ok), "a key is refused")
        return
    E.check(ok, "what is no key is accepted")
    E.check(E.all(isinstance(got, t.KeyData), *[a == b for a, b in zip(got, data)]), "the key given")
    E.check(E.raises(vol.Invalid, validated, config(network={where: bytes(16)})), "a key is a list of numbers")
    E.reach("key")


def descriptor(E):
    """Additional endpoints are taken as described; incomplete ones are refused."""
    full = dict(endpoint=E.int("endpoint", -1, 256), profile=E.int("profile", -1, 65536), device_type=E.bits("type", 16), device_version=E.bits("version", 8),
                input_clusters=[E.bits("c1", 16)], output_clusters=[])
    ok = E.all(0 <= full["endpoint"], full["endpoint"] <= 255, 0 <= full["profile"], full["profile"] <= 65535)
    gone = E.pick("missing", [None, *full])
    if gone:
        del full[gone]
        ok = False
    try:
        got = validated(config(additional_endpoints=[full]))["additional_endpoints"]
    except vol.Invalid:
        E.check(E.not_(ok), "a descriptor is refused")
        return
    E.check(ok, "a descriptor that is none is accepted")
    E.check(E.all(len(got) == 1, isinstance(got[0], SimpleDescriptor), *[getattr(got[0], k) == x for k, x in full.items()]), "the descriptor given")
    E.reach("descriptor")


def addresses(E):
    """Extended identifiers, channels and the path of the radio."""
    a = E.pick("address", [None, "00:11:22:33:44:55:66:77", world.NCP])
    chans = E.pick("channels", [[], [11], [15, 20, 26], [26, 11]])
    got = validated(config(network={"extended_pan_id": t.ExtendedPanId(a) if isinstance(a, t.EUI64) else a, "tc_address": a, "channels": chans}))["network"]
    if a is None:
        E.check(got["extended_pan_id"] is None and got["tc_address"] is None, "no address")
    else:
        want = a if not isinstance(a, str) else t.EUI64.convert(a)
        E.check(E.all(got["extended_pan_id"] == want, got["tc_address"] == want), "addresses given")
    E.check(got["channels"] == sum(1 << c for c in chans), "channels given")
    E.check(E.raises(vol.Invalid, validated, config(network={"channels": [E.pick("bad", [10, 27, 0, -1])]})), "a channel that does not exist")
    E.check(E.raises(vol.Invalid, validated, {k: x for k, x in config().items() if k != conf.CONF_DEVICE}), "a radio is needed")
    E.check(E.raises(vol.Invalid, validated, {**config(), conf.CONF_DEVICE: {}}), "a radio has a path")
    flow = E.pick("flow", ["hardware", "software", None, "none", True])
    cfg = {**config(), conf.CONF_DEVICE: {"path": "/dev/x", "flow_control": flow, "baudrate": 57600}}
    if flow in ("none", True):
        E.check(E.raises(vol.Invalid, validated, cfg), "a flow control that does not exist")
    else:
        d = validated(cfg)["device"]
        E.check(d == {"path": "/dev/x", "flow_control": flow, "baudrate": 57600}, "the radio's settings given")
    E.check(validated({**config(), "extra": 7})["extra"] == 7, "settings of others are kept")


def defaults(E):
    got = validated({conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}})
    n = got["network"]
    E.check(E.all(n["channel"] is None, n["pan_id"] is None, n["extended_pan_id"] is None, n["key"] is None, n["tc_address"] is None, n["key_sequence_number"] == 0, n["update_id"] == 0,
                  bytes(n["tc_link_key"]) == b"ZigBeeAlliance09", n["channels"] == (1 << 11 | 1 << 15 | 1 << 20 | 1 << 25)), "the network's defaults")
    E.check(E.all(got["topology_scan_enabled"] is True, got["backup_enabled"] is True, got["watchdog_enabled"] is True, got["source_routing"] is False,
                  got["validate_network_settings"] is False, got["startup_energy_scan"] is True, got["database_path"] is None, got["additional_endpoints"] == [],
                  got["device"]["baudrate"] == 115200, got["device"]["flow_control"] is None), "other defaults")
    x = E.int("value", 11, 26)
    a, b = validated(config(network={"channel": x})), validated(config())
    E.check(b["network"]["channel"] is None, "defaults are not shared")
    a["additional_endpoints"].append(1)
    E.check(validated(config())["additional_endpoints"] == [], "defaults are not shared")
    E.reach("defaults")


class Opened(Exception):
    pass


def serial(E):
    """A serial port is opened with the flow control asked for, whichever way it was asked for."""
    loop = E.loop()
    calls = []
    proto, trans = object(), object()
    err = E.pick("error", [None, "plain", "wrapped"])

    async def create(lp, factory, **kw):
        calls.append((lp, factory, kw))
        if err == "plain":
            raise zigpy.serial.pyserial.SerialException("no")
        if err == "wrapped":
            try:
                raise PermissionError("no")
            except PermissionError:
                raise zigpy.serial.pyserial.SerialException("no")
        return trans, proto

    E.patch(zigpy.serial.pyserial_asyncio, "create_serial_connection", create)
    kw, xon, rts = {}, False, False
    if E.bool("by_signal"):
        if E.bool("has_xonxoff"):
            kw["xonxoff"] = xon = E.pick("xonxoff", [True, False])
        if E.bool("has_rtscts"):
            kw["rtscts"] = rts = E.pick("rtscts", [True, False])
    if E.bool("by_name"):
        kw["flow_control"] = flow = E.pick("flow", ["hardware", "software", None])
        xon, rts = flow == "software", flow == "hardware"
    baud = None
    if E.bool("has_baudrate"):
        baud = kw["baudrate"] = E.int("baudrate", 1, 1000000)
    if E.bool("has_exclusive"):
        kw["exclusive"] = True
    url = E.pick("url", ["/dev/ttyUSB0", "COM3", "socketx", "rfc2217://host:1"])
    call = zigpy.serial.create_serial_connection(loop, Opened, url, **kw)
    if err == "plain":
        E.check(E.raises(zigpy.serial.pyserial.SerialException, loop.run, call), "failures are handed on")
    elif err == "wrapped":
        E.check(E.raises(PermissionError, loop.run, call), "the reason is handed on")
        E.reach("unwrapped")
    else:
        E.check(loop.run(call) == (trans, proto), "the connection is handed on")
    E.check(len(calls) == 1, "opened once")
    lp, factory, got = calls[0]
    E.check(E.all(lp is loop, factory is Opened, got["url"] == url, got["xonxoff"] == xon, got["rtscts"] == rts, got["baudrate"] == (115200 if baud is None else baud),
                  got["exclusive"] is (True if "exclusive" in kw else None)), "the port, speed and flow control asked for")
    E.reach("serial")


def socket(E):
    """A socket is opened at the host and port, 6638 if none is given, within five seconds."""
    loop = E.loop()
    calls = []
    proto, trans = object(), object()
    how = E.pick("how", ["ok", "hang", "fail"])

    async def create(**kw):
        calls.append(kw)
        if how == "hang":
            await asyncio.Event().wait()
        if how == "fail":
            raise ConnectionRefusedError("no")
        return trans, proto

    E.patch(loop, "create_connection", create)
    scheme = E.pick("scheme", ["socket", "tcp"])
    host = E.pick("host", ["10.0.0.1", "radio.local", "[::1]"])
    port = E.pick("port", [None, 1234, 65535])
    url = f"{scheme}://{host}" + ("" if port is None else f":{port}") + E.pick("slash", ["", "/"])
    t0 = loop.time()
    task = loop.spawn(zigpy.serial.create_serial_connection(loop, Opened, url, baudrate=57600, flow_control=E.pick("flow", ["hardware", None])))
    loop.drain()
    if how == "hang":
        E.check(not task.done(), "it may take a while")
        loop.advance(5)
        loop.drain()
        E.check(task.done() and isinstance(task.exception(), asyncio.TimeoutError), "given up after five seconds")
        E.reach("hang")
    elif how == "fail":
        E.check(isinstance(task.exception(), ConnectionRefusedError), "failures are handed on")
    else:
        E.check(task.result() == (trans, proto), "the connection is handed on")
    E.check(len(calls) == 1 and calls[0] == {"protocol_factory": Opened, "host": host.strip("[]"), "port": 6638 if port is None else port}, "the host and port")
    E.reach("socket")


def units(tier):
    out = [(f"number/{n}", number, {"name": n}) for n in NUMBERS] + [(f"text/{n}", text, {"name": n}) for n in NUMBERS]
    return out + [(n, globals()[n], {}) for n in ("switch", "key", "descriptor", "addresses", "defaults", "serial", "socket")]
