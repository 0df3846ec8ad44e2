"""Group membership, here and on the devices."""

import zigpy.exceptions
import zigpy.types as t
from props import world
from props.common import le

BOUNDS = ("histories of 3 (thorough 4) changes of two groups and two endpoints of two devices; scans with up to 3 arbitrary group numbers in the answer; joining "
          "and leaving with any status, default responses and failures")
OUTSIDE = "groups on devices without asking them (a scan finds them); removal of devices"
REACH = ["group_added", "group_removed", "member_added", "member_removed", "noop", "pop_missing", "scan", "scan_failed", "scan_default", "join", "join_refused",
         "join_failed", "join_default", "part", "part_missing", "part_refused", "no_cluster", "history", "overlap", "bad_member"]

GIDS = [0x0001, 0x8002]
EVENTS = ("group_added", "group_removed", "group_member_added", "group_member_removed")


def make(E, ins=(0, 4, 6)):
    loop = E.loop()
    app = world.make_app()
    world.add_device(app, ieee=world.NCP, nwk=0)
    a = world.add_device(app, ieee=world.IEEES[0], nwk=0x1230, endpoints=(1, 2), ins=ins)
    b = world.add_device(app, ieee=world.IEEES[1], nwk=0x1231, ins=ins)
    eps = [a.endpoints[1], a.endpoints[2], b.endpoints[1]]
    rec = world.Rec(*EVENTS)
    app.groups.add_listener(rec)
    return loop, app, eps, rec


def agree(E, app, eps, members):
    """`members`: group number -> set of indices of endpoints."""
    g = app.groups
    E.check(E.all(len(g) == len(members), *[i in g for i in members]), "the groups that exist")
    for gid, m in members.items():
        grp = g[gid]
        E.check(grp.group_id == gid, "a group has its number")
        E.check(set(grp) == {eps[i].unique_id for i in m}, "the members of a group")
        for i in m:
            E.check(grp[eps[i].unique_id] is eps[i], "the members of a group are endpoints")
    for i, ep in enumerate(eps):
        mine = [gid for gid, m in members.items() if i in m]
        E.check(E.all(len(ep.member_of) == len(mine), *[E.any(*[x == y for y in mine]) if mine else False for x in ep.member_of]), "an endpoint knows its groups")
        for gid in mine:
            E.check(ep.member_of[gid] is g[gid], "an endpoint knows its groups")


def happened(E, rec, want, message, ignore=()):
    """The changes announced, in any order."""
    got = []
    for e in rec.events:
        if e[0] in ignore:
            continue
        got.append((e[0], None if e[1] is None else e[1].group_id, e[2].unique_id if len(e) > 2 else None))
    rest = list(want)
    for x in got:
        for y in rest:
            if x[0] == y[0] and x[2] == y[2] and x[1] == y[1]:
                rest.remove(y)
                break
        else:
            E.check(False, message)
    E.check(not rest, message)
    rec.events.clear()


def history(E, prior, first=None):
    loop, app, eps, rec = make(E)
    members = {}
    if prior:
        members = {GIDS[0]: {0, 2}}
        for i in (0, 2):
            app.groups.add_group(GIDS[0], "one").add_member(eps[i])
        rec.events.clear()
    for step in range((2 if prior else 3) + (E.tier != "quick")):
        op = first if first is not None and step == 0 else E.choice("op", 5)
        gid = GIDS[E.choice("gid", 2)]
        want = []
        ignore = ()
        if op == 0:
            g = app.groups.add_group(gid, ["name", None][step % 2])
            if gid not in members:
                members[gid] = set()
                want.append(("group_added", gid, None))
                E.reach("group_added")
            else:
                E.reach("noop")
            E.check(g is app.groups[gid], "the group is returned")
        elif op in (1, 2):
            if gid not in members:
                E.assume(False)
            i = E.pick("ep", [0, 2])
            if op == 1:
                app.groups[gid].add_member(eps[i])
                if i not in members[gid]:
                    want.append(("group_member_added", gid, eps[i].unique_id))
                    E.reach("member_added")
                members[gid].add(i)
            else:
                app.groups[gid].remove_member(eps[i])
                if i in members[gid]:
                    want.append(("group_member_removed", gid, eps[i].unique_id))
                    E.reach("member_removed")
                else:
                    ignore = ("group_member_removed",)
                members[gid].discard(i)
        elif op == 3:
            op = 3 + (step + E.choice("by", 2)) % 3
            arg = app.groups.get(gid) if op == 4 else gid
            if gid in members:
                g = app.groups[gid]
                if op == 5:
                    E.check(app.groups.remove_group(gid) is g, "the group removed is returned")
                else:
                    E.check(app.groups.pop(arg) is g, "the group removed is returned")
                for i in members.pop(gid):
                    want.append(("group_member_removed", gid, eps[i].unique_id))
                want.append(("group_removed", gid, None))
                E.check(not g, "a removed group has no members")
                E.reach("group_removed")
            else:
                if op == 4:
                    E.assume(False)
                E.check(app.groups.pop(gid, None) is None, "there is no such group")
                E.check(E.raises(KeyError, app.groups.pop, gid), "there is no such group")
                E.reach("pop_missing")
        else:
            i = E.pick("ep", [0, 2])
            now = set(E.pick("now", [(), (GIDS[0],), (GIDS[1],), tuple(GIDS)]))
            app.groups.update_group_membership(eps[i], now)
            for g in GIDS:
                if g in now:
                    if g not in members:
                        members[g] = set()
                        want.append(("group_added", g, None))
                    if i not in members[g]:
                        want.append(("group_member_added", g, eps[i].unique_id))
                    members[g].add(i)
                elif i in members.get(g, ()):
                    members[g].discard(i)
                    want.append(("group_member_removed", g, eps[i].unique_id))
        agree(E, app, eps, members)
        happened(E, rec, want, "each change, and nothing else, is announced", ignore)
    E.check(E.raises(ValueError, app.groups.add_group(7, suppress_event=True).add_member, object()), "only endpoints are members")
    E.reach("bad_member")
    E.reach("history")


def scan(E, n, prior):
    """A scan makes the memberships those the device reports."""
    loop, app, eps, rec = make(E)
    members = {}
    first = E.bits("first", 16)
    if prior:
        # one endpoint of the device and one of another device are members already
        g = app.groups.add_group(t.Group(first))
        g.add_member(eps[0])
        g.add_member(eps[2])
        members = {first: {0, 2}}
    rec.events.clear()
    eps[0].device.endpoints.pop(2)
    task = eps[0].device.schedule_group_membership_scan()
    loop.drain()
    E.check(len(app.sent) == 1, "the device is asked")
    p = app.sent[0]
    E.check(E.all(p.cluster_id == 4, p.dst_ep == 1) and p.data.serialize() == bytes([0x01, p.tsn, 0x02, 0x00]), "for all its groups")
    how = E.pick("how", ["ok", "default", "garbled", "timeout"])
    found = [E.bits("found", 16) for _ in range(n)]
    for i in range(n):
        for j in range(i):
            E.assume(found[i] != found[j])
    want = []
    if how == "ok":
        data = world.zcl(0x19, p.tsn, 0x02, bytes([0xFF, n]) + b"".join([le(E, x, 2) for x in found]))
        same = [x for x in found if prior and bool(x == first)]
        if same:
            E.reach("overlap")
        for x in found:
            if x in same:
                continue
            members[x] = {0}
            want += [("group_added", x, None), ("group_member_added", x, eps[0].unique_id)]
        if prior and not same:
            members[first] = {2}
            want.append(("group_member_removed", first, eps[0].unique_id))
        E.reach("scan")
    elif how == "default":
        data = world.zcl(0x18, p.tsn, 0x0B, b"\x02\x81")
        E.reach("scan_default")
    elif how == "garbled":
        data = world.zcl(0x19, p.tsn, 0x02, bytes([0xFF, n + 1]) + b"".join([le(E, x, 2) for x in found]))
        E.reach("scan_failed")
    if how == "timeout":
        loop.advance(5)
    else:
        app.packet_received(world.packet(eps[0].device, data, cluster=4))
        loop.drain()
    E.check(task.done() and task.exception() is None, "the scan ends")
    agree(E, app, eps, members)
    happened(E, rec, want, "each change, and nothing else, is announced")


def joining(E, leave, device_level):
    """Joining and leaving take place when the device agrees."""
    loop, app, eps, rec = make(E)
    gid = E.bits("gid", 16)
    ep = eps[2]
    members = {}
    start = E.choice("start", 3)
    if start:
        g = app.groups.add_group(t.Group(gid))
        members[gid] = set()
        if start == 2:
            g.add_member(ep)
            members[gid] = {2}
    rec.events.clear()
    who = ep.device if device_level else ep
    name = "" if leave else E.pick("name", ["name", "", None, "no name"])
    coro = who.remove_from_group(gid) if leave else who.add_to_group(gid) if name == "no name" else who.add_to_group(gid, name)
    name = b"" if name in (None, "no name") else name.encode()
    task = loop.spawn(coro)
    E.check(len(app.sent) == 1, "the device is asked")
    p = app.sent[0]
    want = bytes([0x01, p.tsn, 0x03 if leave else 0x00]) + le(E, gid, 2) + (b"" if leave else bytes([len(name)]) + name)
    E.check(p.cluster_id == 4 and p.data.serialize() == want, "to join or leave")
    how = E.pick("how", ["answer", "default", "timeout"])
    status = E.bits("status", 8)
    if how == "answer":
        app.packet_received(world.packet(ep.device, world.zcl(0x19, p.tsn, 0x03 if leave else 0x00, le(E, status, 1) + le(E, gid, 2)), cluster=4))
        ok = E.any(status == 0, status == (0x8B if leave else 0x8A))
    elif how == "default":
        E.assume(status != 0)
        app.packet_received(world.packet(ep.device, world.zcl(0x18, p.tsn, 0x0B, bytes([0x03 if leave else 0x00]) + le(E, status, 1)), cluster=4))
        ok = False
        E.reach("join_default")
    else:
        loop.advance(5)
        ok = False
        E.reach("join_failed")
    loop.drain()
    E.check(task.done(), "the answer ends it")
    want = []
    if how == "timeout":
        E.check(isinstance(task.exception(), TimeoutError), "no answer is an error")
    elif not device_level:
        E.check(task.result() == status, "the status is returned")
    if ok:
        if leave:
            E.reach("part" if status == 0 else "part_missing")
            if start == 2:
                members[gid] = set()
                want.append(("group_member_removed", gid, ep.unique_id))
        else:
            E.reach("join")
            if not start:
                want.append(("group_added", gid, None))
            if start != 2:
                want.append(("group_member_added", gid, ep.unique_id))
            members[gid] = {2}
    else:
        E.reach("part_refused" if leave else "join_refused")
    agree(E, app, eps, members)
    happened(E, rec, want, "each change, and nothing else, is announced", ("group_member_removed",) if leave and start != 2 and ok else ())


def no_cluster(E):
    loop, app, eps, rec = make(E, ins=(0, 6))
    gid = E.bits("gid", 16)
    E.check(loop.run(eps[2].add_to_group(gid)) == 1, "an endpoint without groups cannot join")
    E.check(loop.run(eps[2].remove_from_group(gid)) == 1, "an endpoint without groups cannot leave")
    task = eps[2].device.schedule_group_membership_scan()
    loop.drain()
    E.check(task.done() and task.exception() is None, "there is nothing to scan")
    E.check(not app.sent and not rec.events and not app.groups, "nothing changes")
    E.reach("no_cluster")


def units(tier):
    for p in (False, True):
        for n in range(3 if tier == "quick" else 4):
            yield f"scan-{n}-{p}", scan, dict(n=n, prior=p)
        for d in (False, True):
            yield f"joining-{p}-{d}", joining, dict(leave=p, device_level=d)
    yield "history", history, dict(prior=True)
    for first in (0, 3, 4):
        yield f"history-{first}", history, dict(prior=False, first=first)
    yield "no-cluster", no_cluster, {}
