"""Databases of earlier versions."""

import json

import zigpy.appdb as appdb
import zigpy.appdb_schemas
import zigpy.exceptions
import zigpy.types as t
import zigpy.zdo.types as zdot
from props import sql as sqlmod
from props import world
from props.P01 import A, B, DB, Clock, Home, Life, backup, neighbor, route, same_view, view

BOUNDS = ("databases of versions 3 to 13 with two devices, three endpoints, all kinds of data with any addresses, values and times; errors of and crashes before every second (thorough: every) "
          "operation of a migration from version 12, and every 37th (5th) from versions 3, 6 and 9; versions that do not fit")
OUTSIDE = "versions 0 to 2, whose tables are a subset of those of version 3; rows that violate constraints, except of missing devices in version 4; errors of the rollback; SQLite itself, as in P01"
REACH = ["migrated", "orphan", "fault", "crash", "mismatch", "newer", "current"]


def contents(E, v):
    """What the old database knows: values of every kind, by table."""
    nd = world.node_desc()
    n1, n2 = neighbor(E, "n1", B), neighbor(E, "n2", world.IEEES[2])
    return dict(
        devices=[(A, E.int("nwk", 1, 0xFFF7), 2, E.int("seen", 1, 2 ** 31) if v != 8 else E.pick("seen", [1, 1234.567, 2 ** 31])), (B, 0x4321, 2, 0)],
        endpoints=[(A, 1, 260, 256, 1), (A, 2, E.int("profile", 0xC000, 0xFFFF), E.bits("type", 16), 1), (B, 1, 260, 256, 1)],
        ins=[(A, 1, 0), (A, 1, 6), (A, 2, 6), (B, 1, 0)],
        outs=[(A, 1, 6), (A, 2, 0x19), (B, 1, 0x19)],
        attributes=[(A, 1, 0, 4, "maker"), (A, 1, 0, 5, "thing"), (A, 1, 6, 0x4001, E.bits("value", 32)), (B, 1, 0, 4, b"other\x00\x00"), (B, 1, 0, 5, "one")],
        unsupported=[(A, 1, 6, 0x4003), (A, 2, 6, 0xFF01)],
        groups=[(E.int("group", 1, 0xFFF7), "kitchen")],
        node_descriptors=[(A, nd), (B, world.node_desc(end_device=True))],
        relays=[(A, t.Relays([t.NWK(0x2222), t.NWK(0x1111)]))],
        neighbors=[(A, n1), (A, n2)],
        routes=[(A, route(E, "r1")), (B, route(E, "r2"))],
        backups=[backup(1, 1), backup(5, 2, pan=0x4444)],
        updated=E.int("updated", 1, 2 ** 31),
    )


def fill(ex, v, data, orphan=False):
    """Writes the data the way version `v` did; returns what such a database knows of it."""
    sfx = f"_v{v}" if v >= 5 else ""
    d = dict(data)

    def ins(table, row):
        ex(f"INSERT INTO {table} VALUES ({','.join('?' * len(row))})", tuple(row))

    for ieee, nwk, status, seen in data["devices"]:
        ins("devices" + sfx, (ieee, nwk, status) + ((int(seen * 1000),) if v == 8 else (seen,) if v > 8 else ()))
    for r in data["endpoints"]:
        ins("endpoints" + sfx, r)
    if v == 13:
        for side, rows in ((0, data["ins"]), (1, data["outs"])):
            for ieee, ep, c in rows:
                ins("clusters_v13", (ieee, ep, side, c))
    else:
        for r in data["ins"]:
            ins("in_clusters" + sfx if v >= 5 else "clusters", r)
        for r in data["outs"]:
            ins("out_clusters" + sfx if v >= 5 else "output_clusters", r)
    for ieee, ep, c, a, value in data["attributes"]:
        row = (ieee, ep, c, a, value)
        if v == 13:
            row = (ieee, ep, 0, c, a, value, data["updated"])
        elif v == 12:
            row = (*row, data["updated"])
        ins("attributes_cache" + sfx if v >= 5 else "attributes", row)
    if orphan:
        ins("attributes" if v < 5 else "in_clusters" + sfx, (world.IEEES[3], 1, 0, 4, "gone")[: 5 if v < 5 else 3])
    if v >= 7:
        for ieee, ep, c, a in data["unsupported"]:
            ins("unsupported_attributes" + sfx, (ieee, ep, c, a) if v < 13 else (ieee, ep, 0, c, a))
    else:
        d["unsupported"] = []
    for r in data["groups"]:
        ins("groups" + sfx, r)
        ins("group_members" + sfx, (r[0], A, 2))
    for ieee, nd in data["node_descriptors"]:
        if v < 4:
            ins("node_descriptors", (ieee, nd.serialize()))
        else:
            ins("node_descriptors_v4" if v == 4 else "node_descriptors" + sfx, (ieee, *nd.as_tuple()))
    for ieee, r in data["relays"]:
        ins("relays" + sfx, (ieee, r.serialize()))
    for ieee, n in data["neighbors"]:
        if v < 4:
            packed = int(n.device_type) | int(n.rx_on_when_idle) << 2 | int(n.relationship) << 4 | int(n.reserved1) << 7
            ins("neighbors", (ieee, n.extended_pan_id, n.ieee, n.nwk, packed, n.permit_joining, n.depth, n.lqi))
        else:
            ins("neighbors_v4" if v == 4 else "neighbors" + sfx, (ieee, *n.as_tuple()))
    if v >= 10:
        for b in data["backups"]:
            ins("network_backups" + sfx, (None, json.dumps(b.as_dict())))
    else:
        d["backups"] = []
    if v >= 11:
        for ieee, r in data["routes"]:
            ins("routes" + sfx, (ieee, *r.as_tuple()))
    else:
        d["routes"] = []
    d["seen"] = v >= 8
    d["times"] = v >= 12
    return d


def expected(d):
    """What an application knows that has read this."""
    devs = {}
    for ieee, nwk, status, seen in d["devices"]:
        eps = {}
        for i, ep, profile, kind, st in d["endpoints"]:
            if i != ieee:
                continue
            cl = {}
            for side, rows in (("in", d["ins"]), ("out", d["outs"])):
                for i2, ep2, c in rows:
                    if (i2, ep2) != (ieee, ep):
                        continue
                    attrs = {a: v for i3, e3, c3, a, v in d["attributes"] if side == "in" and (i3, e3, c3) == (ieee, ep, c)}
                    un = sorted(["16387", "start_up_on_off"] if a == 0x4003 else [str(a)] for i3, e3, c3, a in d["unsupported"] if side == "in" and (i3, e3, c3) == (ieee, ep, c))
                    cl[side, c] = dict(attrs=attrs, times={a: d["updated"] if d["times"] else 0 for a in attrs}, unsupported=sorted(x for u in un for x in u))
            eps[ep] = dict(profile=profile, type=kind, status=st, clusters=cl)
        devs[ieee] = dict(
            nwk=nwk, status=status, seen=(seen if d["seen"] and seen is not 0 else None), manufacturer="maker" if ieee == A else "other", model="thing" if ieee == A else "one",  # noqa: F632
            initialized=True, node_desc=next(n.as_tuple() for i, n in d["node_descriptors"] if i == ieee), endpoints=eps,
            relays=next((list(r) for i, r in d["relays"] if i == ieee), None))
    return dict(devices=devs, groups={g: dict(name=n, members=[(A, 2)]) for g, n in d["groups"]},
                neighbors={A: [n.as_tuple() for _, n in d["neighbors"]]},
                routes={i: [r.as_tuple() for j, r in d["routes"] if j == i] for i, _ in d["routes"]},
                backups=[b.as_dict() for b in d["backups"]], stray=[])


def old(E, home, v, orphan=False):
    """A database written by version `v`."""
    appdb._register_sqlite_adapters()
    db = appdb.sqlite3.connect(DB, isolation_level=None)
    for text in zigpy.appdb_schemas.SCHEMAS[v].split(";"):
        db.execute(text)
    d = fill(db.execute, v, contents(E, v), orphan)
    db.close()
    return expected(d)


def compare(E, home, want, message):
    got = view(home.app)
    same_view(E, want, got, message)
    for ieee, d in want["devices"].items():
        s = got["devices"][ieee]["seen"]
        E.check(s is None and d["seen"] is None if s is None or d["seen"] is None else s == d["seen"], message)


def migrate(E, v):
    """Everything an old database knows is known, and remembered."""
    home = Home(E)
    want = old(E, home, v, orphan=v == 4)
    if v == 4:
        E.reach("orphan")
    home.start()
    compare(E, home, want, "what an earlier version knew is known")
    E.reach("migrated")
    if v == 13:
        E.reach("current")
    Life(E, home).init(world.IEEES[2], 0x7777)
    same_view(E, *home.restart(), "and remembered")


def interrupted(E, v, upto, how, step=1):
    """A migration that fails or is interrupted leaves the database as it was."""
    home = Home(E)
    want = old(E, home, v)
    at = E.choice("at", upto // step) * step
    home.sql.count = 0
    hit = []

    def hook(conn, what, a):
        if home.sql.count >= at and not hit and (how == "crash" or not (what == "execute" and a[0].strip().upper() in ("COMMIT", "ROLLBACK", "") or what != "execute")):
            hit.append(1)
            E.reach(how)
            if how == "crash":
                home.sql.crash(conn)
                raise sqlmod.Crash
            raise appdb.sqlite3.OperationalError("disk I/O error")

    home.sql.hook = hook
    try:
        home.start()
    except Exception:  # noqa: BLE001
        E.check(bool(hit), "a database of an earlier version can be used")
    else:
        home.crash()
    home.sql.hook = None
    home.start()
    compare(E, home, want, "after a migration that was interrupted all is known")


def versions(E):
    """Databases whose version is not that of their tables are not touched; newer ones are used as they are."""
    home = Home(E)
    want = old(E, home, 13)
    v = E.pick("version", [0, 4, 12, 14])
    more = E.bool("more")
    more = E.concrete(more)
    db = appdb.sqlite3.connect(DB, isolation_level=None)
    if more:
        db.execute("CREATE TABLE devices_v14 (ieee ieee NOT NULL)")
    db.execute(f"PRAGMA user_version = {v}")
    db.close()
    if more and v == 14:
        home.start()
        E.reach("newer")
        compare(E, home, want, "a newer database is used as far as it is known")
        return
    E.check(E.raises(zigpy.exceptions.CorruptDatabase, home.start), "an inconsistent database is refused")
    E.reach("mismatch")
    db = appdb.sqlite3.connect(DB, isolation_level=None)
    E.check(db.execute("PRAGMA user_version").fetchone()[0] == v, "and not changed")
    if more:
        db.execute("DROP TABLE devices_v14")
    db.execute("PRAGMA user_version = 13")
    db.close()
    home.start()
    compare(E, home, want, "and loses nothing")


def units(tier):
    for v in range(3, 14):
        yield f"v{v}", migrate, dict(v=v)
    q = tier == "quick"
    for how in ("fault", "crash"):
        yield f"{how}-v12", interrupted, dict(v=12, upto=106, how=how, step=2 if q else 1)
        for v, n in ((3, 750), (6, 570), (9, 370)):
            yield f"{how}-v{v}", interrupted, dict(v=v, upto=n, how=how, step=37 if q else 5)
    yield "versions", versions, {}
