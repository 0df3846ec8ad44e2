"""A controller application whose radio only records what it is asked to do."""

import asyncio
import logging

import zigpy.application
import zigpy.config as conf
import zigpy.device
import zigpy.endpoint
import zigpy.exceptions
import zigpy.profiles.zha as zha
import zigpy.state
import zigpy.types as t
import zigpy.zcl.clusters  # noqa: F401
import zigpy.zdo.types as zdot
from zigpy.zcl import foundation as f

NCP = t.EUI64.convert("aa:11:22:bb:33:44:be:ef")
IEEES = [t.EUI64.convert(f"00:11:22:33:44:55:66:0{i}") for i in range(6)]


class App(zigpy.application.ControllerApplication):
    """Sends nothing; `sent` lists packets, `fail` is asked for an exception to raise."""

    def __init__(self, config):
        super().__init__(config)
        self.sent = []
        self.calls = []
        self.fail = None
        self.gate = None

    async def send_packet(self, packet):
        self.sent.append(packet)
        if self.gate is not None:
            await self.gate(packet)
        if self.fail is not None:
            exc = self.fail(packet)
            if exc is not None:
                raise exc

    async def connect(self):
        self.calls.append(("connect",))

    async def disconnect(self):
        self.calls.append(("disconnect",))

    async def start_network(self):
        self.calls.append(("start_network",))

    async def force_remove(self, dev):
        self.calls.append(("force_remove", dev))

    async def add_endpoint(self, descriptor):
        self.calls.append(("add_endpoint", descriptor))

    async def permit_ncp(self, time_s=60):
        self.calls.append(("permit_ncp", time_s))

    async def permit_with_link_key(self, node, link_key, time_s=60):
        self.calls.append(("permit_with_link_key", node, link_key, time_s))

    async def reset_network_info(self):
        self.calls.append(("reset",))

    async def write_network_info(self, *, network_info, node_info):
        self.calls.append(("write", network_info, node_info))

    async def load_network_info(self, *, load_devices=False):
        self.calls.append(("load", load_devices))


def make_app(updates=None, cls=App):
    cfg = {conf.CONF_DATABASE: None, conf.CONF_DEVICE: {conf.CONF_DEVICE_PATH: "/dev/null"}, conf.CONF_OTA: {conf.CONF_OTA_ENABLED: False}}
    cfg.update(updates or {})
    app = cls(cfg)
    app.state.node_info = zigpy.state.NodeInfo(nwk=t.NWK(0x0000), ieee=NCP, logical_type=zdot.LogicalType.Coordinator)
    return app


def node_desc(end_device=False, manufacturer=0x1234):
    lt = zdot.LogicalType.EndDevice if end_device else zdot.LogicalType.Router
    return zdot.NodeDescriptor(
        logical_type=lt, complex_descriptor_available=0, user_descriptor_available=0, reserved=0, aps_flags=0,
        frequency_band=zdot.NodeDescriptor.FrequencyBand.Freq2400MHz,
        mac_capability_flags=zdot.NodeDescriptor.MACCapabilityFlags.AllocateAddress, manufacturer_code=manufacturer,
        maximum_buffer_size=82, maximum_incoming_transfer_size=82, server_mask=0, maximum_outgoing_transfer_size=82,
        descriptor_capability_field=zdot.NodeDescriptor.DescriptorCapability.NONE)


def add_device(app, ieee=IEEES[0], nwk=0x1234, ins=(0x0000, 0x0006), outs=(0x0019,), end_device=False, endpoints=(1,), init=True):
    dev = app.add_device(ieee, t.NWK(nwk))
    dev.node_desc = node_desc(end_device) if init else None
    for e in endpoints:
        ep = dev.add_endpoint(e)
        ep.profile_id = zha.PROFILE_ID
        ep.device_type = zha.DeviceType.ON_OFF_LIGHT
        ep.status = zigpy.endpoint.Status.ZDO_INIT if init else zigpy.endpoint.Status.NEW
        for c in ins:
            ep.add_input_cluster(c)
        for c in outs:
            ep.add_output_cluster(c)
    if init:
        dev.model, dev.manufacturer = "model", "manufacturer"
    return dev


def packet(dev, data, cluster=0x0006, src_ep=1, dst_ep=1, profile=260, **kw):
    kw.setdefault("src", t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=dev.nwk))
    kw.setdefault("dst", t.AddrModeAddress(addr_mode=t.AddrMode.NWK, address=t.NWK(0)))
    kw.setdefault("timestamp", NOW)
    return t.ZigbeePacket(src_ep=src_ep, dst_ep=dst_ep, profile_id=profile, cluster_id=cluster, data=t.SerializableBytes(data), **kw)


import datetime  # noqa: E402

NOW = datetime.datetime(2026, 1, 2, 3, 4, 5, tzinfo=datetime.timezone.utc)


class Rec:
    """A listener recording every event it is told about."""

    def __init__(self, *names):
        self.events = []
        for n in names:
            setattr(self, n, self._make(n))

    def _make(self, n):
        def cb(*a):
            self.events.append((n, *a))
        return cb

    def count(self, n):
        return len([e for e in self.events if e[0] == n])

    def of(self, n):
        return [e[1:] for e in self.events if e[0] == n]


def zcl(frame_control, tsn, cmd, payload=b"", manufacturer=None):
    """Raw ZCL frame bytes, by hand."""
    m = b"" if manufacturer is None else bytes([manufacturer & 0xFF, manufacturer >> 8])
    return bytes([frame_control]) + m + bytes([tsn, cmd]) + payload
