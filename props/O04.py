"""Firmware updates: what the device is told and how they end."""

import asyncio

import zigpy.device
import zigpy.exceptions
import zigpy.ota as ota
import zigpy.ota.image as im
import zigpy.types as t
from props import world
from props.common import le
from zigpy.ota.providers import BaseOtaImageMetadata
from zigpy.zcl import foundation as f
from zigpy.zcl.clusters.general import Ota

BOUNDS = ("histories of up to 3 requests of a device during an update, each with any image, version, offset and size, answered or not, with any time in between; images of 92 bytes of both formats, forced or not, "
          "with any versions and restrictions")
OUTSIDE = "several requests of the device handled at the same time, but those while a block is on its way; the time an image takes"
REACH = ["notify-failed", "offered", "refused", "block", "last", "beyond", "end", "failed", "stalled", "kept-alive", "success", "reread", "again", "foreign", "hue", "forced", "raised", "cancelled", "after", "late"]

FORCED = 0xFFFFFFFE


def make_image(E, hue, version):
    body = bytes(range(100, 136))
    if not hue:
        body = b"\x00\x00\x1e\x00\x00\x00" + body[6:]
    else:
        body = b"\x2a\x00\x01" + body[3:]
    hdr = im.OTAImageHeader(
        upgrade_file_id=im.OTAImageHeader.MAGIC_VALUE, header_version=256, header_length=56, field_control=im.FieldControl(0), manufacturer_id=E.bits("manufacturer", 16),
        image_type=E.bits("type", 16), file_version=version, stack_version=2, header_string=im.HeaderString("text"), image_size=92)
    fw = im.HueSBLOTAImage(header=hdr, data=body) if hue else im.OTAImage(header=hdr, subelements=[im.SubElement(tag_id=im.ElementTagId(0), data=im.LVBytes32(body[6:]))])
    return fw, hdr


def content(E, hdr, version, fw):
    """The bytes of the image as the device shall get them."""
    raw = b"\x1e\xf1\xee\x0b\x00\x01\x38\x00\x00\x00" + le(E, hdr.manufacturer_id, 2) + le(E, hdr.image_type, 2) + le(E, version, 4) + b"\x02\x00text" + b"\x00" * 28 + b"\x5c\x00\x00\x00"
    body = bytes(range(100, 136))
    return raw + (b"\x2a\x00\x01" + body[3:] if isinstance(fw, im.HueSBLOTAImage) else b"\x00\x00\x1e\x00\x00\x00" + body[6:])


class Sim:
    def __init__(self, E, hue=False, force=False, meta=None, version=None):
        self.E = E
        self.loop = E.loop()
        self.app = world.make_app()
        self.dev = world.add_device(self.app, ins=(0x0000,), outs=(0x0019,))
        self.other = world.add_device(self.app, ieee=world.IEEES[1], nwk=0x4321, outs=(0x0019,))
        self.version = E.bits("version", 32) if version is None else version
        self.fw, self.hdr = make_image(E, hue, self.version)
        self.meta = dict(file_version=self.version) | (meta or {})
        self.image = ota.OtaImageWithMetadata(metadata=BaseOtaImageMetadata(**self.meta), firmware=self.fw)
        self.force = force
        self.shown = FORCED if force else self.version
        self.progress = []
        self.bad = None
        self.sends = 0
        self.app.fail = self.fail
        self.tsn = 0
        self.ids = le(E, self.hdr.manufacturer_id, 2) + le(E, self.hdr.image_type, 2) + le(E, self.shown, 4)

    def fail(self, p):
        self.sends += 1
        return zigpy.exceptions.DeliveryError("no") if self.bad == self.sends else None

    def start(self, cb=None):
        self.task = self.loop.spawn(self.dev.update_firmware(self.image, progress_callback=cb or (lambda *a: self.progress.append(a)), force=self.force))

    def take(self):
        """[(command, tsn, payload)] sent to the device since last asked."""
        r = []
        for p in self.app.sent:
            self.E.check(p.cluster_id == 0x0019 and p.dst.address == self.dev.nwk, "only the device is told")
            raw = p.data.serialize()
            r.append((raw[0], raw[1], raw[2], raw[3:]))
        self.app.sent.clear()
        return r

    def rx(self, cmd, payload, dev=None):
        self.tsn += 1
        fc = 0x01 if dev is None else 0x01
        self.app.packet_received(world.packet(dev or self.dev, world.zcl(fc, 100 + self.tsn, cmd) + payload, cluster=0x0019))
        self.loop.drain()
        return 100 + self.tsn


def reply(E, got, tsn, cmd, payload):
    E.check(len(got) == 1, "each request is answered once")
    fc, t_, c, p = got[0]
    E.check(fc & 0x0B == 0x09 and t_ == tsn and c == cmd, "the answer belongs to the request")
    if payload == b"\x98":
        p = p[:1]  # whether it says more about an image it does not offer is left open
    E.check(p == payload, "the answer tells what it should")


def history(E, kinds, hue=False, force=False):
    """Requests one after another until the update ends."""
    s = Sim(E, hue, force)
    s.start()
    got = s.take()
    E.check(len(got) == 1 and got[0][2] == 0 and got[0][3] == b"\x00\x64" and got[0][0] & 0x0B == 0x09, "the device is notified")
    data = content(E, s.hdr, s.shown, s.fw)
    deadline = s.loop.time() + 30
    result = None
    E.check(s.dev.ota_in_progress, "the update is in progress")
    for i, kind in enumerate(kinds):
        wait = E.pick(f"wait{i}", [0, 20, 30]) if len(kinds) > 1 else 0
        if s.loop.time() + wait >= deadline:
            s.loop.advance(deadline - s.loop.time())
            result = f.Status.TIMEOUT
            E.reach("stalled")
            break
        s.loop.advance(wait)
        if i and wait and s.loop.time() > 1030:
            E.reach("kept-alive")
        E.check(not s.task.done(), "it goes on until it ends or nothing happens for 30 seconds")
        ok = not E.bool(f"undelivered{i}")
        s.bad = None if ok else s.sends + 1
        if kind == "query":
            mc, it, cur = E.bits(f"mc{i}", 16), E.bits(f"it{i}", 16), E.bits(f"cur{i}", 32)
            tsn = s.rx(1, b"\x00" + le(E, mc, 2) + le(E, it, 2) + le(E, cur, 4))
            offer = force or E.concrete(bool(E.all(mc == s.hdr.manufacturer_id, it == s.hdr.image_type, cur < s.version)))
            reply(E, s.take(), tsn, 2, b"\x00" + s.ids + b"\x5c\x00\x00\x00" if offer else b"\x98")
            E.reach("offered" if offer else "refused")
            if not offer or not ok:
                result = f.Status.NO_IMAGE_AVAILABLE if ok else f.Status.FAILURE
        elif kind in ("block", "offset", "size"):
            off = E.bits(f"off{i}", 32) if kind == "offset" else E.pick(f"at{i}", [0, 60, 91, 92, 0xFFFFFFFF])
            size = E.bits(f"size{i}", 8) if kind == "size" else E.pick(f"max{i}", [0, 1, 40, 50])
            before = len(s.progress)
            tsn = s.rx(3, b"\x00" + E.bytes(f"ids{i}", 8) + le(E, off, 4) + le(E, size, 1))
            n = E.ite(size < 40, size, 40)
            if E.concrete(bool(E.any(off >= len(data), size == 0))):
                reply(E, s.take(), tsn, 5, b"\x80")
                result = f.Status.MALFORMED_COMMAND
                E.reach("beyond")
            else:
                off, n = E.concrete(off), E.concrete(n)
                block = data[off : off + n]
                reply(E, s.take(), tsn, 5, b"\x00" + s.ids + le(E, off, 4) + bytes([len(block)]) + block)
                new = s.progress[before:]
                if ok:
                    deadline = s.loop.time() + 30
                    E.check(len(new) == 1 and new[0][:2] == (off + len(block), len(data)), "progress is reported")
                    E.reach("last" if off + len(block) == len(data) else "block")
                else:
                    E.check(new == [], "no progress without delivery")
                    result = f.Status.FAILURE
        else:
            st = E.bits(f"status{i}", 8)
            tsn = s.rx(6, le(E, st, 1) + E.bytes(f"ids{i}", 8))
            reply(E, s.take(), tsn, 7, s.ids + b"\x00" * 8)
            result = st if ok else f.Status.FAILURE
            E.reach("end" if ok else "failed")
        if result is not None:
            break
    s.bad = None
    if result is None:
        E.check(not s.task.done(), "it goes on until it ends or nothing happens for 30 seconds")
        s.loop.advance(deadline - s.loop.time() - 1)
        E.check(not s.task.done(), "it goes on until it ends or nothing happens for 30 seconds")
        s.loop.advance(1)
        result = f.Status.TIMEOUT
        E.reach("stalled")
    E.check(not s.dev.ota_in_progress, "it ends")
    if E.concrete(bool(result == f.Status.SUCCESS)):
        E.check(not s.task.done() and s.dev.endpoints[1].out_clusters[0x0019].get("current_file_version") is None, "after success the version known before is forgotten")
        E.reach("success")
    else:
        E.check(s.task.done() and s.task.exception() is None and s.task.result() == result, "and returns how it ended")
    E.check(s.take() == [], "nothing else is sent")
    if hue:
        E.reach("hue")
    if force:
        E.reach("forced")


def notify(E):
    """A device that cannot be notified."""
    s = Sim(E)
    s.bad = 1
    s.start()
    E.check(s.task.done() and s.task.exception() is None and s.task.result() == f.Status.FAILURE, "it fails if the device cannot be notified")
    E.check(not s.dev.ota_in_progress, "it ends")
    E.reach("notify-failed")


def success(E):
    """After the update the version is read again."""
    s = Sim(E, version=10)
    s.dev.endpoints[1].out_clusters[0x0019].update_attribute(2, 5)
    s.start()
    s.take()
    s.rx(6, b"\x00" * 9)
    s.take()
    done = s.loop.time()
    lost = E.choice("lost", 4)
    new = E.bits("new", 32)
    for i in range(lost):
        s.loop.fire_next()
        got = s.take()
        E.check(len(got) == 1 and got[0][2] == 0 and got[0][3] == b"\x02\x00", "the version is asked for")
        E.check(s.loop.time() - done == 10 + 15 * i, "after a while, again if there is no answer")
        s.loop.fire_next()
        E.check(not s.task.done(), "up to four times")
    s.loop.fire_next()
    got = s.take()
    E.check(len(got) == 1 and got[0][2] == 0 and got[0][3] == b"\x02\x00", "the version is asked for")
    s.app.packet_received(world.packet(s.dev, world.zcl(0x08, 0, 1) [:1] + le(E, got[0][1], 1) + b"\x01\x02\x00\x00\x23" + le(E, new, 4), cluster=0x0019))
    s.loop.drain()
    E.check(s.task.done() and s.task.exception() is None and s.task.result() == f.Status.SUCCESS, "and returns how it ended")
    E.check(s.dev.endpoints[1].out_clusters[0x0019].get("current_file_version") == new, "the version the device told is known")
    E.reach("reread")


def restrict(E, which):
    """An image not meant for the device is not offered, also once it has been chosen."""
    lim = E.bits("limit", 16 if "hardware" in which else 32)
    cur, hw, ver = E.bits("current", 32), E.bits("hardware", 16), E.bits("version", 32)
    meta = {which: lim} if which not in ("model_names", "manufacturer_names") else {which: tuple(E.pick("names", [("x",), ("x", "model", "manufacturer"), ()]))}
    force = E.bool("force")
    s = Sim(E, meta=meta, force=force, version=ver)
    s.start()
    s.take()
    told = E.bool("told")
    tsn = s.rx(1, (b"\x01" if told else b"\x00") + s.ids[:4] + le(E, cur, 4) + (le(E, hw, 2) if told else b""))
    good = {
        "manufacturer_id": lambda: lim == s.hdr.manufacturer_id,
        "image_type": lambda: lim == s.hdr.image_type,
        "min_hardware_version": lambda: told and hw >= lim,
        "max_hardware_version": lambda: told and hw <= lim,
        "min_current_file_version": lambda: cur >= lim,
        "max_current_file_version": lambda: cur <= lim,
        "model_names": lambda: not meta[which] or "model" in meta[which],
        "manufacturer_names": lambda: not meta[which] or "manufacturer" in meta[which],
    }[which]()
    offer = E.concrete(bool(E.any(force, E.all(good, cur < ver))))
    reply(E, s.take(), tsn, 2, b"\x00" + s.ids + b"\x5c\x00\x00\x00" if offer else b"\x98")
    E.check(s.task.done() is not offer, "it ends if the image is not for the device")


def again(E):
    """One update at a time; other devices do not matter."""
    s = Sim(E, version=10)
    s.start()
    s.take()
    two = s.loop.spawn(s.dev.update_firmware(s.image))
    E.check(two.done() and two.exception() is None and two.result() is None and s.dev.ota_in_progress, "a second update does not start")
    E.check(s.app.sent == [], "nor is anything sent")
    E.reach("again")
    cmd = E.pick("command", [1, 3, 6])
    payload = {1: b"\x00" + s.ids, 3: b"\x00" + s.ids + b"\x00\x00\x00\x00\x30", 6: b"\x00" + s.ids}[cmd]
    s.rx(cmd, payload, dev=s.other)
    E.check(not s.task.done() and not [p for p in s.app.sent if p.dst.address == s.dev.nwk], "requests of other devices are no matter of this update")
    E.check(all(p.dst.address == s.other.nwk for p in s.app.sent), "they get their own answer")
    for p in s.app.sent:
        raw = p.data.serialize()
        E.check((raw[2], raw[3:]) in ((2, b"\x98"), (5, b"\x95")), "which is that there is nothing for them")
    E.check(len(s.app.sent) == (0 if cmd == 6 else 1), "they get their own answer")
    s.app.sent.clear()
    E.reach("foreign")
    how = E.pick("how", ["cancel", "progress", "end"])
    if how == "cancel":
        s.task.cancel()
        s.loop.drain()
        E.check(s.task.done() and s.task.cancelled(), "it can be cancelled")
        E.reach("cancelled")
    elif how == "end":
        s.rx(6, b"\x95" + s.ids)
        E.check(s.task.done() and s.task.result() == f.Status.ABORT, "and returns how it ended")
    else:
        s.loop.advance(30)
        E.check(s.task.done() and s.task.result() == f.Status.TIMEOUT, "and returns how it ended")
    s.app.sent.clear()
    E.check(not s.dev.ota_in_progress, "it ends")
    tsn = s.rx(3, b"\x00" + s.ids + b"\x00\x00\x00\x00\x30")
    reply(E, s.take(), tsn, 5, b"\x95")
    tsn = s.rx(1, b"\x00" + s.ids)
    reply(E, s.take(), tsn, 2, b"\x98")
    E.check(s.progress == [], "after the end there is no progress")
    E.reach("after")
    s.start()
    E.check(s.dev.ota_in_progress and len(s.take()) == 1, "another update can start then")


def late(E):
    """A block whose delivery takes so long that the update has ended meanwhile."""
    s = Sim(E, version=10)
    s.start()
    s.take()
    gate = s.loop.create_future()

    async def slow(p):
        if p.data.serialize()[2] == 5:
            await gate

    s.app.gate = slow
    s.rx(3, b"\x00" + s.ids + b"\x00\x00\x00\x00\x30")
    how = E.pick("how", ["end", "cancel", "stall", "delivered"])
    result = f.Status.TIMEOUT
    if how == "end":
        result = E.bits("status", 8)
        E.assume(result != 0)
        s.rx(6, le(E, result, 1) + s.ids)
    elif how == "cancel":
        s.task.cancel()
        s.loop.drain()
    elif how == "stall":
        s.loop.advance(30)
    going = how in ("end", "delivered")  # one request is answered after the other
    E.check(s.task.done() is not going, "it ends although a block is on its way")
    s.loop.advance(E.pick("wait", [0, 9]))
    if E.bool("delivered at last"):
        gate.set_result(None)
    else:
        gate.set_exception(zigpy.exceptions.DeliveryError("no"))
        result = f.Status.FAILURE if going else result
    lost = gate.exception() is not None
    s.loop.drain()
    E.check(len(s.progress) == (1 if going and not lost else 0), "after the end there is no progress")
    if how == "delivered" and not lost:
        s.loop.advance(29)
        E.check(not s.task.done(), "it goes on until it ends or nothing happens for 30 seconds")
        s.loop.advance(1)
    E.check(s.task.done() and not s.dev.ota_in_progress, "it ends")
    E.check(s.task.cancelled() if how == "cancel" else s.task.exception() is None and s.task.result() == result, "and returns how it ended")
    s.app.sent.clear()
    s.start()
    E.check(s.dev.ota_in_progress and len(s.take()) == 1, "another update can start then")
    s.loop.advance(29)
    E.check(s.dev.ota_in_progress and not s.task.done(), "which is not affected")
    E.reach("late")


def raising(E):
    """Whatever the progress callback does."""
    s = Sim(E, version=10)

    def cb(*a):
        raise ValueError("no")

    s.start(cb)
    s.take()
    s.rx(3, b"\x00" + s.ids + b"\x00\x00\x00\x00\x30")
    E.check(s.task.done() and s.task.exception() is None and s.task.result() == f.Status.FAILURE and not s.dev.ota_in_progress, "it ends")
    E.reach("raised")


def units(tier):
    for k in ("query", "offset", "size", "end"):
        for hue, force in ((0, 0), (0, 1), (1, 1), (1, 0)):
            yield f"one-{k}-{hue}-{force}", history, dict(kinds=[k], hue=bool(hue), force=bool(force))
    for ks in (["query", "block"], ["block", "end"], ["query", "query"], ["query", "end"], ["query", "query", "end"], ["block", "block"]):
        yield "seq-" + "-".join(ks), history, dict(kinds=ks)
    if tier != "quick":
        yield "seq-offset-size", history, dict(kinds=["offset", "size"])
        yield "seq-query-block-end", history, dict(kinds=["query", "block", "end"])
    yield "notify", notify, {}
    yield "success", success, {}
    yield "again", again, {}
    yield "raising", raising, {}
    yield "late", late, {}
    for w in ("manufacturer_id", "image_type", "min_hardware_version", "max_hardware_version", "min_current_file_version", "max_current_file_version", "model_names", "manufacturer_names"):
        yield f"restrict-{w}", restrict, dict(which=w)
