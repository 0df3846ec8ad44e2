"""Which firmware images are offered for a device."""

import asyncio

import attrs
import zigpy.ota as ota
import zigpy.ota.image as im
import zigpy.types as t
from props import world
from zigpy.ota.providers import BaseOtaImageMetadata
from zigpy.zcl.clusters.general import Ota

BOUNDS = ("up to 3 images from up to 2 providers with any versions, current versions, manufacturers, types, hardware limits in the index or the file, names and specificity; failing or slow indexes and downloads; "
          "2 queries of the same or different devices one after another or at once")
OUTSIDE = "more images or queries; images with equal metadata from two providers"
REACH = ["upgrade", "downgrade", "refused", "header", "collision", "same", "sorted", "download-failed", "index-failed", "slow", "cached", "incompatible-provider", "concurrent", "retried"]

QUERY = Ota.ServerCommandDefs.query_next_image.schema


@attrs.define(frozen=True, kw_only=True, eq=False)
class Meta(BaseOtaImageMetadata):
    """Metadata known by its source; what is downloaded is given."""

    sim: object = None

    def __eq__(self, other):
        return self.source == other.source

    def __hash__(self):
        return hash(self.source)

    async def fetch(self):
        return await self.sim.fetch(self.source)


class Provider:
    def __init__(self, sim, name, metas, compatible=True):
        self.sim, self.name, self.metas, self.compatible = sim, name, metas, compatible
        self.loads = 0
        self.behave = None

    def compatible_with_device(self, device):
        return self.compatible is True or device in self.compatible

    async def load_index(self):
        self.loads += 1
        if self.behave is not None:
            r = self.behave(self.loads)
            if r == "slow":
                await asyncio.sleep(1000)
            if isinstance(r, Exception):
                raise r
            if r == "none":
                return None
        return list(self.metas)


class Sim:
    def __init__(self, E):
        self.E = E
        self.loop = E.loop()
        self.app = world.make_app()
        self.dev = world.add_device(self.app, outs=(0x0019,))
        self.dev2 = world.add_device(self.app, ieee=world.IEEES[1], nwk=0x4321, outs=(0x0019,))
        self.ota = self.app.ota
        self.files = {}
        self.fetched = []
        self.failing = {}

    async def fetch(self, source):
        self.fetched.append(source)
        n = self.fetched.count(source)
        how = self.failing.get(source)
        how = how(n) if how else None
        if how == "slow":
            await asyncio.sleep(1000)
        elif isinstance(how, Exception):
            raise how
        else:
            await asyncio.sleep(1)
        return self.files[source]

    def image(self, source, version, file=b"A", h_manufacturer=0x1234, h_type=7, lo=None, hi=None, **meta):
        fc = 4 if lo is not None else 0
        hdr = im.OTAImageHeader(
            upgrade_file_id=im.OTAImageHeader.MAGIC_VALUE, header_version=256, header_length=60 if fc else 56, field_control=im.FieldControl(fc), manufacturer_id=h_manufacturer,
            image_type=h_type, file_version=5, stack_version=2, header_string=im.HeaderString("t"), image_size=(60 if fc else 56) + 6 + len(file),
            minimum_hardware_version=lo, maximum_hardware_version=hi)
        self.files[source] = im.OTAImage(header=hdr, subelements=[im.SubElement(tag_id=im.ElementTagId(0), data=im.LVBytes32(file))])
        return Meta(file_version=version, source=source, sim=self, **meta)

    def query(self, manufacturer=0x1234, image_type=7, current=0, hardware=None):
        return QUERY(field_control=QUERY.FieldControl(0 if hardware is None else 1), manufacturer_code=manufacturer, image_type=image_type, current_file_version=current,
                     **({} if hardware is None else {"hardware_version": hardware}))

    def ask(self, q, dev=None):
        return self.loop.run(self.ota.get_ota_images(dev or self.dev, q))


def names(images):
    return [i.metadata.source for i in images]


def restricted(E, which, where):
    """One image: it is an upgrade, a downgrade or not for the device, the first time as well as later."""
    s = Sim(E)
    n = 16 if which in ("manufacturer", "type", "min_hardware", "max_hardware") else 32
    lim, got = E.bits("limit", n), E.bits("told", n)
    version = E.bits("version", 32)
    told = E.bool("has hardware") if "hardware" in which else False
    current = got if "current" in which else E.bits("current", 32)
    q = s.query(manufacturer=got if which == "manufacturer" else 0x1234, image_type=got if which == "type" else 7, current=current, hardware=got if told else None)
    meta, hdr = {}, {}
    if which in ("model", "manufacturer_name"):
        lst = E.pick("names", [(), ("x",), ("x", "model", "manufacturer")])
        meta[which + "_names" if which == "model" else "manufacturer_names"] = lst
        good = not lst or len(lst) == 3
    elif which in ("min_current", "max_current"):
        meta[which + "_file_version"] = lim
        good = True
    else:
        key = {"manufacturer": "manufacturer_id", "type": "image_type"}.get(which, which + "_version")
        if where == "index":
            meta[key] = lim
            # the index goes before the file
            if which == "manufacturer":
                hdr["h_manufacturer"] = E.bits("other", 16)
            elif which == "type":
                hdr["h_type"] = E.bits("other", 16)
            elif E.bool("elsewhere"):
                hdr.update(lo=0x0101, hi=0x0101)
                meta["max_hardware_version" if which == "min_hardware" else "min_hardware_version"] = 0xFFFF if which == "min_hardware" else 0
        elif which in ("manufacturer", "type"):
            hdr["h_manufacturer" if which == "manufacturer" else "h_type"] = lim
        else:
            hdr.update(lo=lim if which == "min_hardware" else 0, hi=lim if which == "max_hardware" else 0xFFFF)
        good = {"manufacturer": lambda: got == lim, "type": lambda: got == lim, "min_hardware": lambda: E.all(told, got >= lim), "max_hardware": lambda: E.all(told, got <= lim)}[which]()
    m = s.image("one", version, **hdr, **meta)
    s.ota.register_provider(Provider(s, "p", [m]))
    newer = E.all(version > current, {"min_current": lambda: got >= lim, "max_current": lambda: got <= lim}.get(which, lambda: True)())
    newer = E.concrete(bool(newer))
    good = E.concrete(bool(good)) if where == "index" or newer else None
    for k in range(2):
        r = s.ask(q)
        up, down = names(r.upgrades), names(r.downgrades)
        if newer:
            E.check(up == (["one"] if good else []) and down == [], "what is newer and for the device, by its index or its contents, is an upgrade")
            E.reach("upgrade" if good else ("refused" if where == "index" else "header"))
            if good:
                E.check(r.upgrades[0].firmware is s.files["one"], "it comes with its contents")
        else:
            E.check(up == [] and (good is None or down == (["one"] if good else [])), "what is for the device and not newer is a downgrade")
            if good is not False:
                E.reach("downgrade")
    E.check(s.fetched == (["one"] if newer and (good or where != "index") else []), "only an upgrade is downloaded, and only once")


def specificity(meta, header):
    total = 0
    total += 1000 * bool(meta.get("manufacturer_names")) + 1000 * bool(meta.get("model_names"))
    total += 100 * ("image_type" in meta or header) + 100 * ("manufacturer_id" in meta or header)
    total += 10 * ("min_current_file_version" in meta) + 10 * ("max_current_file_version" in meta)
    total += ("min_hardware_version" in meta or (header and "lo" in meta)) + ("max_hardware_version" in meta or (header and "hi" in meta))
    return total


def ordered(E, n, kinds):
    """Several images: the best first; of those that cannot be told apart, none unless they are the same."""
    s = Sim(E)
    choices = [{}, {"model_names": ("model",)}, {"manufacturer_names": ("manufacturer", "x")}, {"image_type": 7, "min_current_file_version": 0}, {"manufacturer_id": 0x1234, "max_current_file_version": 0xFFFFFFFF},
               {"min_hardware_version": 0, "image_type": 7}, {"max_hardware_version": 0xFFFF, "image_type": 7},
               {"lo": 0, "hi": 0xFFFF}]
    current = E.bits("current", 32)
    metas, vs, sp, files = [], [], [], []
    for i in range(n):
        c = dict(choices[E.pick(f"kind{i}", kinds)])
        boost = E.bits(f"boost{i}", 8) if i < 2 else None
        vs.append(E.bits(f"version{i}", 32))
        files.append(E.pick(f"file{i}", [b"A", b"B"]))
        metas.append(s.image(str(i), vs[i], files[i], specificity=boost, **c))
        files[i] += b"limits" * ("lo" in c)  # the files differ
        sp.append(c if boost is None else (c, boost))
    s.ota.register_provider(Provider(s, "p", metas[:1]))
    s.ota.register_provider(Provider(s, "q", metas[1:]))
    r = s.ask(s.query(current=current, hardware=1))

    def spec(i, header):
        return specificity(sp[i], header) if isinstance(sp[i], dict) else specificity(sp[i][0], header) + sp[i][1]

    newer = [E.concrete(bool(v > current)) for v in vs]
    ups = [i for i in range(n) if newer[i]]
    clash = [i for i in ups if any(files[j] != files[i] and E.concrete(bool(E.all(vs[i] == vs[j], spec(i, True) == spec(j, True)))) for j in ups)]
    if clash:
        E.reach("collision")
    exp = [i for i in ups if i not in clash]
    got = [int(x) for x in names(r.upgrades)]
    E.check(sorted(got) == exp, "every upgrade is offered but those that contradict each other")
    E.check(E.all(*[E.any(vs[a] > vs[b], E.all(vs[a] == vs[b], spec(a, True) >= spec(b, True))) for a, b in zip(got, got[1:])]), "the newest first, of these the most specific")
    down = [int(x) for x in names(r.downgrades)]
    E.check(sorted(down) == [i for i in range(n) if not newer[i]], "the others are downgrades")
    E.check(E.all(*[E.any(vs[a] > vs[b], E.all(vs[a] == vs[b], spec(a, False) >= spec(b, False))) for a, b in zip(down, down[1:])]), "the newest first, of these the most specific")
    E.check(sorted(s.fetched) == [str(i) for i in ups], "only upgrades are downloaded")
    if len(got) > 1:
        E.reach("sorted")
        if any(files[a] == files[b] and E.concrete(bool(vs[a] == vs[b])) for a, b in zip(got, got[1:])):
            E.reach("same")


def failing(E, what):
    """What fails is left out and tried again later; the rest is not affected."""
    s = Sim(E)
    a, b = s.image("a", 10), s.image("b", 20)
    p, q = Provider(s, "p", [a]), Provider(s, "q", [b])
    s.ota.register_provider(p)
    s.ota.register_provider(q)
    how = E.pick("how", [None, "slow", ValueError("no"), asyncio.TimeoutError()])
    second = E.bool("again")
    if what == "download":
        s.failing["a"] = lambda n: how if n == 1 or second else None
    else:
        p.behave = lambda n: how if n == 1 or second else None
    begin = s.loop.time()
    r = s.ask(s.query())
    E.check(names(r.upgrades) == (["b"] if how else ["b", "a"]), "what cannot be had is not offered, the rest is")
    E.check(s.loop.time() - begin <= 21, "nothing is waited for longer than 20 seconds")
    if how == "slow":
        E.reach("slow")
    if how:
        E.reach(what + "-failed")
    r = s.ask(s.query())
    E.check(names(r.upgrades) == (["b"] if how and second else ["b", "a"]), "it is tried again later")
    if how and not second:
        E.reach("retried")
    E.check(s.fetched.count("b") == 1, "nothing is downloaded twice")


def providers(E):
    """Only providers for the device are asked; what they said before still counts when they have no news."""
    s = Sim(E)
    va, vb, cur = E.bits("va", 32), E.bits("vb", 32), E.bits("current", 32)
    a, b = s.image("a", va), s.image("b", vb, model_names=("other",))
    none = E.bool("none")
    p = Provider(s, "p", [a], compatible=[s.dev])
    p.behave = lambda n: "none" if n > 1 and none else None
    q = Provider(s, "q", [b], compatible=[])
    s.ota.register_provider(p)
    s.ota.register_provider(q)
    for k in range(2):
        r = s.ask(s.query(current=cur))
        new = E.concrete(bool(va > cur))
        E.check(names(r.upgrades) == (["a"] if new else []) and names(r.downgrades) == ([] if new else ["a"]), "what a provider said counts until it says something else")
    E.check(p.loads == 2 and q.loads == 0, "only providers for the device are asked")
    E.check(len(s.fetched) <= 1, "nothing is downloaded twice")
    E.reach("cached")
    r = s.ask(s.query(), dev=s.dev2)
    E.check(p.loads == 2, "only providers for the device are asked")
    E.reach("incompatible-provider")


def concurrent(E):
    """Two devices asking at once."""
    s = Sim(E)
    va, c1, c2 = E.bits("va", 32), E.bits("c1", 32), E.bits("c2", 32)
    a = s.image("a", va)
    p = Provider(s, "p", [a])
    s.ota.register_provider(p)
    slow = E.bool("slow")
    one = s.loop.spawn(s.ota.get_ota_images(s.dev, s.query(current=c1)))
    if slow:
        s.loop.advance(0)
    two = s.loop.spawn(s.ota.get_ota_images(s.dev2, s.query(current=c2)))
    while s.loop.next_timer() is not None and not (one.done() and two.done()):
        s.loop.fire_next()
    E.check(one.done() and two.done(), "both are answered")
    for task, c in ((one, c1), (two, c2)):
        new = E.concrete(bool(va > c))
        E.check(names(task.result().upgrades) == (["a"] if new else []) and names(task.result().downgrades) == ([] if new else ["a"]), "each is answered by itself")
    E.check(len(s.fetched) <= 1, "nothing is downloaded twice")
    E.reach("concurrent")


def units(tier):
    for w in ("manufacturer", "type", "min_hardware", "max_hardware"):
        for where in ("index", "file"):
            yield f"restricted-{w}-{where}", restricted, dict(which=w, where=where)
    for w in ("model", "manufacturer_name", "min_current", "max_current"):
        yield f"restricted-{w}", restricted, dict(which=w, where="index")
    for k in range(8) if tier == "quick" else (range(8),):
        yield f"ordered-2-{k}", ordered, dict(n=2, kinds=(k, (k * 3 + 1) % 8) if tier == "quick" else k)
    for k in ((0,), (1,)) if tier == "quick" else [(a, b) for a in range(8) for b in range(a)]:
        yield "ordered-3-" + "-".join(map(str, k)), ordered, dict(n=3, kinds=k)
    for w in ("download", "index"):
        yield f"failing-{w}", failing, dict(what=w)
    yield "providers", providers, {}
    yield "concurrent", concurrent, {}
