"""Firmware providers: what they list and what is accepted as a download."""

import datetime as real_datetime
import hashlib

import zigpy.ota as ota
import zigpy.ota.image as im
import zigpy.ota.providers as pr
import zigpy.types as t
from props import world
from props.common import from_le, le

BOUNDS = ("files of 62 to 70 bytes with any contents, size and checksum; signed containers of up to 3 blocks with any single field or content byte wrong; indexes of up to 2 entries with any numbers and "
          "the optional entries present or not; up to 4 loads of an index at any times within 4 days; any manufacturer code")
OUTSIDE = "what a server answers besides a document; JSON and tar syntax; texts other than versions are a few samples; cryptographic hashes are arbitrary functions of the data"
ASSUMPTIONS = ["SHA-1, SHA-2, SHA-3 and MD5 are uninterpreted functions", "the network, files, JSON and tar are stubs that return arbitrary decoded contents"]
REACH = ["accepted", "size", "checksum", "signed", "unsigned", "tar", "tar-bad", "swapped", "cached", "reloaded", "failed", "compatible", "incompatible", "unreadable", "gateway", "bricking", "malformed"]


class Rsp:
    def __init__(self, doc):
        self.doc = doc

    async def __aenter__(self):
        if isinstance(self.doc, Exception):
            raise self.doc
        return self

    async def __aexit__(self, *a):
        return None

    async def read(self):
        return self.doc

    async def json(self, **kw):
        return self.doc


class Net:
    """Serves `docs`: url -> document; records what was asked for."""

    def __init__(self, E, docs):
        self.docs, self.asked = docs, []
        net = self

        class Session:
            def __init__(self, **kw):
                self.raising = kw.get("raise_for_status")

            async def __aenter__(self):
                return self

            async def __aexit__(self, *a):
                return None

            def get(self, url, **kw):
                net.asked.append((url, kw.get("ssl"), self.raising))
                return Rsp(net.docs[url])

        E.patch(pr.aiohttp, "ClientSession", Session)


class Path:
    """A file that cannot be touched."""

    def __init__(self, name, content=None, children=(), file=True):
        self.name, self.content, self.children, self.file = name, content, children, file

    @property
    def parent(self):
        return Path(self.name.rpartition("/")[0])

    def __truediv__(self, other):
        return Path(self.name + "/" + other, self.content)

    def read_bytes(self):
        return self.content

    def read_text(self):
        return self.content

    def is_file(self):
        return self.file

    def rglob(self, pattern):
        return list(self.children)

    def __eq__(self, other):
        return isinstance(other, Path) and self.name == other.name

    def __hash__(self):
        return hash(self.name)

    def __str__(self):
        return self.name


def image(E, name, extra=0, limits=False):
    """(bytes, header values) of a correct image."""
    v = {n: E.bits(f"{name}_{n}", k) for n, k in (("manufacturer", 16), ("type", 16), ("version", 32))}
    size = (60 if limits else 56) + 6 + extra
    raw = b"\x1e\xf1\xee\x0b\x00\x01" + (b"\x3c\x00\x04\x00" if limits else b"\x38\x00\x00\x00") + le(E, v["manufacturer"], 2) + le(E, v["type"], 2) + le(E, v["version"], 4)
    raw = raw + b"\x02\x00" + b"\x00" * 32 + le(E, size, 4)
    if limits:
        v["lo"], v["hi"] = E.bits(f"{name}_lo", 16), E.bits(f"{name}_hi", 16)
        raw = raw + le(E, v["lo"], 2) + le(E, v["hi"], 2)
    return raw + b"\x00\x00" + le(E, extra, 4) + E.bytes(f"{name}_data", extra), v


def flip(E, data, where):
    d = E.bits("delta", 8)
    return data[:where] + le(E, data[where] ^ d, 1) + data[where + 1 :], d


def fetched(E, loop, meta):
    task = loop.spawn(meta.fetch())
    E.check(task.done(), "fetching ends")
    return (None, task.exception()) if task.exception() is not None else (task.result(), None)


def download(E, alg, local):
    """A download is accepted exactly if its size and checksum are the announced ones."""
    loop = E.loop()
    data, v = image(E, "img", 2)
    served, d = flip(E, data, len(data) - 1)
    checksum = None if alg is None else alg + ":" + hashlib.new(alg.replace("-", "_"), data).hexdigest()
    size = E.bits("size", 16) if E.bool("sized") else None
    good = size is None or E.concrete(bool(size == len(served)))
    if alg is not None:
        good = good and E.concrete(bool(hashlib.new(alg.replace("-", "_"), served).hexdigest() == hashlib.new(alg.replace("-", "_"), data).hexdigest()))
    kw = dict(file_version=v["version"], file_size=size, checksum=checksum)
    if local:
        meta = pr.LocalOtaImageMetadata(path=Path("/p/file", served), **kw)
    else:
        ctx = object() if E.bool("certificate") else None
        net = Net(E, {"https://x/file": served})
        meta = pr.RemoteOtaImageMetadata(url="https://x/file", ssl_ctx=ctx, **kw)
    got, exc = fetched(E, loop, meta)
    E.check((exc is None) == good, "a download is accepted exactly if size and checksum are right")
    if good:
        E.check(got.serialize() == served, "the image is the one downloaded")
        E.reach("accepted")
    else:
        E.check(isinstance(exc, ValueError), "others are refused")
        E.reach("size" if alg is None else "checksum")
    if not local:
        E.check(net.asked == [("https://x/file", ctx, True)], "it is downloaded once from its address, with its certificate, and errors of the server are errors")


def signed(E, blocks, block_size, field):
    """IKEA containers: each block must have its hash, and the sizes must fit."""
    loop = E.loop()
    inner, v = image(E, "img", 6)
    offset = 40 + 32 * blocks
    vals = dict(magic=0x5349474E, offset=offset, size=len(inner), block_size=block_size, blocks=blocks, file_size=len(inner))
    if field in vals:
        vals[field] = E.bits("wrong", 16 if field == "file_size" else 32)
    if field == "block_size":
        vals[field] = E.pick("larger", [block_size, block_size + 1, 200, 0x80000000]) if E.bool("enough") else E.int("smaller", 0, (len(inner) - 1) // blocks)
    hashes = b"".join([hashlib.sha256(inner[i * block_size : (i + 1) * block_size]).digest() for i in range(blocks)])
    if field == "hash":
        hashes, _ = flip(E, hashes, E.choice("where", blocks) * 32)
    served = inner
    if field == "content":
        served, _ = flip(E, inner, E.pick("where", [10, len(inner) - 1]))
    head = le(E, vals["magic"], 4) + b"\x01" * 12 + le(E, vals["offset"], 4) + le(E, vals["size"], 4) + b"\x02" * 8 + le(E, vals["block_size"], 4) + le(E, vals["blocks"], 4)
    data = head + hashes + served + b"\x09" * 4
    if field == "cut":
        data = data[: len(data) - 5 - E.choice("missing", 3)]
    good = E.concrete(bool(E.all(vals["magic"] == 0x5349474E, vals["offset"] == offset, vals["size"] == len(inner), vals["blocks"] == blocks, vals["file_size"] == vals["size"])))
    good = good and field != "cut"
    if good:
        bs = vals["block_size"]
        good = E.concrete(bool(bs * blocks >= len(inner)))
    if good:
        good = E.concrete(bool(E.all(*[hashlib.sha256(served[i * bs : (i + 1) * bs]).digest() == hashes[32 * i : 32 * i + 32] for i in range(blocks)])))
    E.assume(E.not_(hashlib.sha512(data[64:]).digest() == data[:64]))
    net = Net(E, {"https://x/file": data})
    meta = pr.SignedIkeaRemoteOtaImageMetadata(url="https://x/file", file_version=v["version"], file_size=vals["file_size"])
    got, exc = fetched(E, loop, meta)
    E.check((exc is None) == good, "a signed container is accepted exactly if its sizes fit and each block has its hash")
    if good:
        E.check(got.serialize() == served, "the image is the one in the container")
        E.reach("signed")
    else:
        E.check(isinstance(exc, ValueError), "others are refused")
        E.reach("unsigned")
    E.check(net.asked == [("https://x/file", pr.Tradfri.SSL_CTX, True)], "it is downloaded once, with IKEA's certificate")


PLAIN = (b"\x1e\xf1\xee\x0b\x00\x01\x38\x00\x00\x00\x34\x12\x07\x00\x0a\x00\x00\x00\x02\x00" + b"\x00" * 32 + (66).to_bytes(4, "little") + b"\x00\x00\x04\x00\x00\x00abcd")


def xored(E, name, digest):
    """Any value of the size of the digest, and whether it is the digest."""
    d = E.bytes(name, len(digest))
    return b"".join([le(E, x ^ y, 1) for x, y in zip(d, digest)]), E.concrete(bool(E.all(*[x == 0 for x in d])))


def near(E, alg, local):
    """A checksum is right only if all of it is."""
    loop = E.loop()
    checksum, good = xored(E, "delta", hashlib.new(alg.replace("-", "_"), PLAIN).digest())
    kw = dict(file_version=10, checksum=alg + ":" + checksum.hex())
    Net(E, {"https://x/file": PLAIN})
    meta = pr.LocalOtaImageMetadata(path=Path("/p/file", PLAIN), **kw) if local else pr.RemoteOtaImageMetadata(url="https://x/file", **kw)
    got, exc = fetched(E, loop, meta)
    E.check((exc is None) == good, "a download is accepted exactly if size and checksum are right")
    if good:
        E.check(got.serialize() == PLAIN, "the image is the one downloaded")


def consistent(E, blocks, block_size):
    """A signed container in which each block there is has its hash, wherever they are and whatever they cover."""
    loop = E.loop()
    shift = E.pick("shift", [0, 1, 32])
    offset = 40 + 32 * blocks + shift
    hashes = [hashlib.sha256(PLAIN[i * block_size : (i + 1) * block_size]).digest() for i in range(blocks)]
    good = shift == 0 and blocks * block_size >= len(PLAIN)
    if blocks:
        k = E.choice("which", blocks)
        hashes[k], right = xored(E, "delta", hashes[k])
        good = good and right
    n = [x.to_bytes(4, "little") for x in (offset, len(PLAIN), block_size, blocks)]
    data = b"NGIS" + b"\x01" * 12 + n[0] + n[1] + b"\x02" * 8 + n[2] + n[3] + b"".join(hashes) + b"\x05" * shift + PLAIN + b"\x09" * 4
    Net(E, {"https://x/file": data})
    got, exc = fetched(E, loop, pr.SignedIkeaRemoteOtaImageMetadata(url="https://x/file", file_version=10, file_size=len(PLAIN)))
    E.check((exc is None) == good, "a signed container is accepted exactly if its sizes fit and each block has its hash")
    if good:
        E.check(got.serialize() == PLAIN, "the image is the one in the container")


def salus(E):
    loop = E.loop()
    data, v = image(E, "img", 2)
    served, _ = flip(E, data, len(data) - 1)
    info = {"upgrade": [{"filename": "a.ota", "checksum": hashlib.md5(data).hexdigest().upper()}]}
    good = E.concrete(bool(hashlib.md5(served).hexdigest().upper() == info["upgrade"][0]["checksum"]))
    members = [("networkinfo.json", b"{}", True), ("dir", None, False), ("other.ota", b"other", True), ("a.ota", served, True)]
    if E.bool("order"):
        members.reverse()

    class Member:
        def __init__(self, name, content, file):
            self.name, self.content, self.file = name, content, file

        def isfile(self):
            return self.file

        def read(self):
            return self.content

    class Tar:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def __iter__(self):
            return iter([Member(*m) for m in members])

        def extractfile(self, m):
            return m if m.file else None

    opened = []

    def tar_open(*a, fileobj=None, **kw):
        opened.append(fileobj.read())
        return Tar()

    E.patch(pr.tarfile, "open", tar_open)
    E.patch(pr.json, "loads", lambda text: info)
    Net(E, {"https://x/file": b"tar"})
    got, exc = fetched(E, loop, pr.SalusRemoteOtaImageMetadata(url="https://x/file", file_version=v["version"]))
    E.check(opened == [b"tar"], "the archive downloaded is opened")
    E.check((exc is None) == good, "the file in the archive is accepted exactly if its checksum is right")
    if good:
        E.check(got.serialize() == served, "the image is the one in the archive")
        E.reach("tar")
    else:
        E.check(isinstance(exc, ValueError), "others are refused")
        E.reach("tar-bad")


NAMES = ["file_version", "manufacturer_id", "image_type", "checksum", "file_size", "manufacturer_names", "model_names", "changelog", "release_notes", "min_hardware_version", "max_hardware_version",
         "min_current_file_version", "max_current_file_version", "specificity"]
DEFAULT = dict(manufacturer_names=(), model_names=())


def listed(E, metas, want):
    """[(fields, cls, url or path, ssl)]"""
    E.check(len(metas) == len(want), "each image of the index is listed once, in order")
    for m, (fields, where, ctx) in zip(metas, want):
        for n in NAMES:
            got, exp = getattr(m, n), fields.get(n, DEFAULT.get(n))
            E.check(got is None if exp is None else got == exp, f"the image's {n} is the one in the index")
        if isinstance(where, Path):
            E.check(m.path == where, "the image's file is the one in the index")
        else:
            E.check(m.url == where, "the image's address is the one in the index")
    return metas


def load(E, provider, doc, urls):
    loop = E.loop()
    E.patch(pr.jsonschema, "validate", lambda doc, schema: None)
    net = Net(E, {u: doc for u in urls})
    got = loop.run(provider.load_index())
    if urls:
        E.check([a[0] for a in net.asked] == urls and net.asked[0][2] is True, "the index is asked for once where it is")
    return got, net


URLS = {
    "ikea": "https://fw.ota.homesmart.ikea.com/DIRIGERA/version_info.json", "ledvance": "https://api.update.ledvance.com/v1/zigbee/firmwares",
    "salus": "https://eu.salusconnect.io/demo/default/status/firmware", "sonoff": "https://zigbee-ota.sonoff.tech/releases/upgrade.json",
    "inovelli": "https://files.inovelli.com/firmware/firmware-zha-v2.json", "thirdreality": "https://tr-zha.s3.amazonaws.com/firmware.json",
    "z2m": "https://raw.githubusercontent.com/Koenkk/zigbee-OTA/master/index.json",
}


def provider_of(E, name):
    cls = pr.OTA_PROVIDER_TYPES[name]
    how = E.pick("url", ["mirror", "default", "true"])
    if how == "mirror":
        return cls(url="https://mirror/x"), ["https://mirror/x"]
    return cls(url=None if how == "default" else True), [URLS[name]]


def ikea_new(E):
    p, urls = provider_of(E, "ikea")
    typ = E.bits("type", 16)
    version, url = E.pick("version", [(16908850, "https://x/a_v16908850_b.ota"), (7, "https://x/v1_v0007_.ota"), (None, "https://x/a.ota")])
    sha = "0123456789abcdef" * 4
    doc = [{"fw_type": 3, "fw_binary_url": "https://x/gateway", "fw_sha3_256": sha}, {"fw_image_type": typ, "fw_type": 2, "fw_sha3_256": sha, "fw_binary_url": url}]
    got, net = load(E, p, doc, urls)
    E.reach("gateway")
    E.check(net.asked[0][1] is pr.Tradfri.SSL_CTX, "IKEA's certificate is used")
    bad = E.concrete(bool(E.any(typ == 8704, typ == 8710)))
    if bad:
        E.reach("bricking")
    listed(E, got, [] if version is None or bad else [(dict(file_version=version, manufacturer_id=4476, image_type=typ, checksum="sha3-256:" + sha), url, None)])


def ikea_old(E):
    p, urls = provider_of(E, "ikea")
    typ, man, msb, lsb, size = E.bits("type", 16), E.bits("manufacturer", 16), E.bits("msb", 16), E.bits("lsb", 16), E.bits("size", 32)
    fw_type = E.bits("fw_type", 8)
    fw = {"fw_image_type": typ, "fw_type": fw_type, "fw_manufacturer_id": man, "fw_file_version_MSB": msb, "fw_file_version_LSB": lsb, "fw_filesize": size, "fw_binary_url": "http://x/a_http://"}
    got, net = load(E, p, [fw], urls)
    ok = E.concrete(bool(E.all(fw_type == 2, typ != 8704, typ != 8710)))
    listed(E, got, [(dict(file_version=msb * 65536 + lsb, manufacturer_id=man, image_type=typ, file_size=size), "https://x/a_http://", None)] if ok else [])
    for m in got:
        E.check(isinstance(m, pr.SignedIkeaRemoteOtaImageMetadata), "it is a signed container")


def ledvance(E):
    p, urls = provider_of(E, "ledvance")
    size = E.bits("size", 32)
    company_, product_ = E.pick("ids", [(4489, 25), (4364, 0)])
    fw = {"fullName": "A19/" + E.pick("v", ["00102428", "0102ABCD"]) + "/x", "identity": {"company": company_, "product": product_, "version": {"major": 1, "minor": 2, "build": 428, "revision": 40}},
          "shA256": "ab" * 32, "length": size, "productName": "A19 RGBW", "releaseNotes": "notes"}
    got, net = load(E, p, {"firmwares": [fw]}, urls)
    listed(E, got, [(dict(file_version=int(fw["fullName"][4:12], 16), manufacturer_id=company_, image_type=product_, checksum="sha256:" + "ab" * 32, file_size=size, model_names=("A19 RGBW",), release_notes="notes"),
                     f"https://api.update.ledvance.com/v1/zigbee/firmwares/download?Company={company_}&Product={product_}&Version=1.2.428.40", None)])


def salus_index(E):
    p, urls = provider_of(E, "salus")
    v = E.bits("version", 32)
    text = le(E, v, 4)[::-1].hex()
    doc = {"versions": [{"version": "", "model": "text", "url": "http://x/text"}, {"version": text, "model": "m", "url": E.pick("url_", ["http://x/http://", "https://x/http://"])}]}
    got, net = load(E, p, doc, urls)
    listed(E, got, [(dict(file_version=v, model_names=("m",)), "https://x/http://" if doc["versions"][1]["url"][:5] == "http:" else "https://x/https://", None)])
    E.check(isinstance(got[0], pr.SalusRemoteOtaImageMetadata), "it is an archive")


def sonoff(E):
    p, urls = provider_of(E, "sonoff")
    fws = [{"fw_file_version": E.bits(f"v{i}", 32), "fw_manufacturer_id": E.bits(f"m{i}", 16), "fw_image_type": E.bits(f"t{i}", 16), "fw_filesize": E.bits(f"s{i}", 32), "fw_binary_url": f"https://x/{i}", "model_id": f"model{i}"} for i in range(2)]
    got, net = load(E, p, fws, urls)
    listed(E, got, [(dict(file_version=w["fw_file_version"], manufacturer_id=w["fw_manufacturer_id"], image_type=w["fw_image_type"], file_size=w["fw_filesize"], model_names=(w["model_id"],)), w["fw_binary_url"], None) for w in fws])


def inovelli(E):
    p, urls = provider_of(E, "inovelli")
    vs = [("00000001", 1), ("0000000B", 11), ("0000000a", 10), ("10", 10), ("16842755", 16842755), ("11", 11), ("12", 12), ("0C", None)]
    t1, v1 = E.pick("version", vs[:-1])
    m, ty = E.bits("m", 16), E.bits("t", 16)
    doc = {"A": [{"version": t1, "manufacturer_id": m, "image_type": ty, "firmware": "https://x/1"}, {"version": "2", "manufacturer_id": 1, "image_type": 2, "firmware": "https://x/2"}], "B": [], "C": [{"version": "3", "manufacturer_id": 5, "image_type": 6, "firmware": "https://x/3"}]}
    got, net = load(E, p, doc, urls)
    listed(E, got, [(dict(file_version=v1, manufacturer_id=m, image_type=ty, model_names=("A",)), "https://x/1", None), (dict(file_version=2, manufacturer_id=1, image_type=2, model_names=("A",)), "https://x/2", None),
                    (dict(file_version=3, manufacturer_id=5, image_type=6, model_names=("C",)), "https://x/3", None)])


def thirdreality(E):
    p, urls = provider_of(E, "thirdreality")
    fws = [{"fileVersion": E.bits(f"v{i}", 32), "manufacturerId": E.bits(f"m{i}", 16), "imageType": E.bits(f"t{i}", 16), "url": f"https://x/{i}", "modelId": f"model{i}"} for i in range(2)]
    got, net = load(E, p, {"versions": fws}, urls)
    listed(E, got, [(dict(file_version=w["fileVersion"], manufacturer_id=w["manufacturerId"], image_type=w["imageType"], model_names=(w["modelId"],)), w["url"], None) for w in fws])


def zigpy_fw(E, i, path):
    fw = {"file_version": E.bits(f"v{i}", 32), "manufacturer_id": E.bits(f"m{i}", 16), "image_type": E.bits(f"t{i}", 16), "checksum": f"sha3-256:{i}", "file_size": E.bits(f"s{i}", 32)}
    fw["path" if path else "binary_url"] = f"https://x/{i}"
    if path and E.bool(f"both{i}"):
        fw["binary_url"] = "https://other"
    opts = dict(min_hardware_version=E.bits(f"a{i}", 16), max_hardware_version=E.bits(f"b{i}", 16), min_current_file_version=E.bits(f"c{i}", 32), max_current_file_version=E.bits(f"d{i}", 32),
                changelog="log", release_notes="notes", specificity=E.bits(f"e{i}", 8), manufacturer_names=["a", "b"], model_names=["c"])
    skip = E.pick(f"skip{i}", [None, "all", *opts]) if i == 0 else "all"
    given = {} if skip == "all" else {k: x for k, x in opts.items() if k != skip}
    want = {k: (tuple(x) if isinstance(x, list) else x) for k, x in {**fw, **given}.items() if k not in ("path", "binary_url")}
    return {**fw, **given}, want


def zigpy(E, local):
    fws = [zigpy_fw(E, i, path=local and i == 0) for i in range(2)]
    doc = {"firmwares": [a for a, _ in fws]}
    if local:
        index = Path("/dir/index.json", "text")
        E.patch(pr.json, "loads", lambda text: doc)
        p, urls = pr.LocalZigpyProvider(index_file=index), []
    else:
        p, urls = pr.RemoteZigpyProvider("https://mirror/y"), ["https://mirror/y"]
    got, net = load(E, p, doc, urls)
    listed(E, got, [(w, Path(f"/dir/https://x/{i}") if local and i == 0 else f"https://x/{i}", None) for i, (_, w) in enumerate(fws)])


def z2m(E, local):
    fws, want = [], []
    for i in range(2):
        fw = {"fileVersion": E.bits(f"v{i}", 32), "manufacturerCode": E.bits(f"m{i}", 16), "imageType": E.bits(f"t{i}", 16), "sha512": f"{i}" * 128, "fileSize": E.bits(f"s{i}", 32)}
        w = dict(file_version=fw["fileVersion"], manufacturer_id=fw["manufacturerCode"], image_type=fw["imageType"], checksum="sha512:" + fw["sha512"], file_size=fw["fileSize"])
        path = local and i == 0
        fw["url"] = f"https://x/{i}"
        if path:
            fw["path"] = "sub/file"
        for n, k, x in (("modelId", "model_names", "m"), ("manufacturerName", "manufacturer_names", ["a", "b"]), ("minFileVersion", "min_current_file_version", E.bits(f"lo{i}", 32)), ("maxFileVersion", "max_current_file_version", E.bits(f"hi{i}", 32))):
            if i == 0 and E.bool(n):
                fw[n] = x
                w[k] = (x,) if n == "modelId" else tuple(x) if n == "manufacturerName" else x
        fws.append(fw)
        want.append((w, Path("/dir/sub/file") if path else f"https://x/{i}", None))
    if local:
        E.patch(pr.json, "loads", lambda text: fws)
        p, urls = pr.LocalZ2MProvider(index_file=Path("/dir/index.json", "text")), []
    else:
        p, urls = provider_of(E, "z2m")
    got, net = load(E, p, fws, urls)
    listed(E, got, want)
    for m in got:
        if not local:
            net.docs[m.url] = b""
            net.asked.clear()
            E.loop().spawn(m.fetch())
            E.check(net.asked == [(m.url, pr.RemoteZ2MProvider.SSL_CTX, True)], "images are downloaded with the provider's certificate")


def folder(E):
    """A folder's images are listed; a file that changed since is not accepted."""
    loop = E.loop()
    a, va = image(E, "a", 1, limits=True)
    b, vb = image(E, "b", 0)
    bad = [Path("/f/bad", b[:-1]), Path("/f/text", b"readme")]
    fa, fb = Path("/f/a", a), Path("/f/sub/b", b)
    order = E.pick("order", [[fa, *bad, fb], [Path("/f/sub", file=False), *bad, fa, fb]])
    p = pr.AdvancedFileProvider(Path("/f", children=order), warning="text")
    got, net = load(E, p, None, [])
    E.reach("unreadable")
    listed(E, got, [(dict(file_version=v["version"], manufacturer_id=v["manufacturer"], image_type=v["type"], file_size=len(raw), checksum="sha1:" + hashlib.sha1(raw).hexdigest(), min_hardware_version=v.get("lo"), max_hardware_version=v.get("hi")), f, None)
                    for v, raw, f in ((va, a, fa), (vb, b, fb))])
    fa.content, d = flip(E, a, len(a) - 1)
    same = E.concrete(bool(hashlib.sha1(fa.content).hexdigest() == hashlib.sha1(a).hexdigest()))
    img, exc = fetched(E, loop, got[0])
    E.check((exc is None) == same, "a file that changed is not accepted")
    if not same:
        E.reach("swapped")
    else:
        E.check(img.serialize() == fa.content, "the image is the one in the file")


class Delta:
    def __init__(self, s):
        self.s = s

    def total_seconds(self):
        return self.s

    def __lt__(self, other):
        return self.s < other.total_seconds()

    def __le__(self, other):
        return self.s <= other.total_seconds()

    def __gt__(self, other):
        return self.s > other.total_seconds()

    def __ge__(self, other):
        return self.s >= other.total_seconds()


class Time:
    def __init__(self, s):
        self.s = s

    def __sub__(self, other):
        return Delta(self.s - other.s) if isinstance(other, Time) else Time(self.s - other.total_seconds())

    def __add__(self, other):
        return Time(self.s + other.total_seconds())

    __radd__ = __add__
    __lt__, __le__, __gt__, __ge__ = Delta.__lt__, Delta.__le__, Delta.__gt__, Delta.__ge__

    def total_seconds(self):
        return self.s


DAY = 86400
START = 20000 * DAY


def expiry(E, n):
    """An index is asked for again only after a day, also if it could not be loaded."""
    loop = E.loop()
    clock = [START]

    class Clock:
        timedelta, timezone = real_datetime.timedelta, real_datetime.timezone

        class datetime:
            @staticmethod
            def now(tz=None):
                return Time(clock[0])

            @staticmethod
            def fromtimestamp(s, tz=None):
                return Time(s)

    E.patch(pr, "datetime", Clock)
    E.patch(pr.jsonschema, "validate", lambda doc, schema: None)
    doc = [{"fw_file_version": 1, "fw_manufacturer_id": 2, "fw_image_type": 3, "fw_filesize": 4, "fw_binary_url": "https://x/1", "model_id": "model"}]
    net = Net(E, {"https://mirror/x": doc})
    p = pr.Sonoff(url="https://mirror/x")
    last = None
    for i in range(n):
        if i:
            clock[0] = clock[0] + E.int(f"later{i}", 0, 2 * DAY)
        bad = E.bool(f"bad{i}")
        net.docs["https://mirror/x"] = OSError("no") if bad else doc
        before = len(net.asked)
        task = loop.spawn(p.load_index())
        E.check(task.done(), "loading ends")
        if last is not None and E.concrete(bool(clock[0] - last < DAY)):
            E.check(len(net.asked) == before and task.exception() is None and task.result() is None, "within a day after the last try nothing is loaded")
            E.reach("cached")
        else:
            E.check(len(net.asked) == before + 1, "after a day the index is loaded again")
            E.check(isinstance(task.exception(), OSError) if bad else task.exception() is None and len(task.result()) == 1, "failures are reported")
            E.reach("failed" if bad else "reloaded")
            last = clock[0]


def malformed(E, name):
    """An index that does not have the form agreed is refused as a whole."""
    loop = E.loop()
    p = pr.OTA_PROVIDER_TYPES[name]
    doc = E.pick("doc", [[1], {"a": 1}, "text", 5, None, [{"x": 1}], {"firmwares": [{"x": 1}]}, {"versions": [{"x": 1}]}, {"firmwares": 1}, {"versions": 1}])
    if name in ("zigpy_local", "z2m_local"):
        E.patch(pr.json, "loads", lambda text: doc)
        provider = p(index_file=Path("/dir/index.json", "text"))
    else:
        provider = p(url="https://mirror/x")
        Net(E, {"https://mirror/x": doc})
    task = loop.spawn(provider.load_index())
    E.check(task.done() and task.exception() is not None, "an index of the wrong form is refused")
    E.reach("malformed")


def compatible(E, name):
    """Providers are asked only for devices of their manufacturers."""
    app = world.make_app()
    dev = world.add_device(app, init=False)
    code = E.bits("code", 16)
    known = E.bool("known")
    if known:
        dev.node_desc = world.node_desc(manufacturer=code)
    ids = {"ikea": (4476,), "ledvance": (4489, 4364), "salus": (4216, 43981), "sonoff": (4742,), "inovelli": (4655,), "thirdreality": (4659, 4877, 5127)}.get(name, ())
    kw = {"path": Path("/f")} if name == "advanced" else {"index_file": Path("/d/i")} if name in ("zigpy_local", "z2m_local") else {"url": "https://mirror/x"}
    own = E.pick("ids", [None, "none", "some"])
    if own is not None:
        ids = () if own == "none" else (E.bits("id1", 16), E.bits("id2", 16))
        kw["manufacturer_ids"] = list(ids)
    p = pr.OTA_PROVIDER_TYPES[name](**kw)
    want = not ids or (known and E.concrete(bool(E.any(*[code == i for i in ids]))))
    E.check(p.compatible_with_device(dev) == want, "a provider is asked exactly for devices of its manufacturers, if it has some")
    E.reach("compatible" if want else "incompatible")


def units(tier):
    for alg in (None, "sha1", "sha256", "sha512", "sha3-256") if tier != "quick" else (None, "sha256", "sha3-256"):
        for local in (False, True):
            yield f"download-{alg}-{'local' if local else 'remote'}", download, dict(alg=alg, local=local)
    for field in ("magic", "offset", "size", "block_size", "blocks", "file_size", "hash", "content", "cut"):
        for blocks, bs in ((1, 68), (2, 40), (3, 32)) if tier != "quick" else ((1, 70), (3, 24)):
            yield f"signed-{field}-{blocks}", signed, dict(blocks=blocks, block_size=bs, field=field)
    for alg in ("sha1", "sha256", "sha512", "sha3-256") if tier != "quick" else ("sha256", "sha3-256"):
        for local in (False, True):
            yield f"near-{alg}-{'local' if local else 'remote'}", near, dict(alg=alg, local=local)
    for blocks, bs in ((0, 66), (1, 66), (1, 65), (2, 33), (2, 32), (2, 40), (3, 22), (3, 21), (3, 32)):
        yield f"consistent-{blocks}-{bs}", consistent, dict(blocks=blocks, block_size=bs)
    yield "salus", salus, {}
    for fn in (ikea_new, ikea_old, ledvance, salus_index, sonoff, inovelli, thirdreality, folder):
        yield f"index-{fn.__name__}", fn, {}
    for local in (False, True):
        yield f"index-zigpy-{local}", zigpy, dict(local=local)
        yield f"index-z2m-{local}", z2m, dict(local=local)
    yield "expiry", expiry, dict(n=3 if tier == "quick" else 4)
    for n in ("ikea", "ledvance", "salus", "sonoff", "inovelli", "thirdreality", "zigpy_local", "zigpy_remote", "z2m_local", "z2m"):
        yield f"malformed-{n}", malformed, dict(name=n)
    for n in pr.OTA_PROVIDER_TYPES:
        yield f"compatible-{n}", compatible, dict(name=n)
