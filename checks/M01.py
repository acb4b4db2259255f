"""
M01: opening a store made by any earlier schema version keeps everything.
"""

import io
import os
import sqlite3
import time
from datetime import datetime, timezone

from _zkapauthorizer.model import DoubleSpend, NotEnoughTokens, Pending, Redeemed, VoucherStore
from _zkapauthorizer.recover import recover
from _zkapauthorizer.replicate import (
    get_events,
    get_tahoe_lafs_direntry_replica,
    replication_service,
    snapshot,
    with_replication,
)

from mc import history, zk
from mc.core import Violation, check
from mc.grid import Client, Grid
from mc.runner import Check, Scenario

LATEST = len(history.STEPS)
ZONES = ["UTC", "America/New_York", "Asia/Kolkata"]
KINDS = ["new", "tokens", "partial", "redeemed", "spent", "foreign"]
# what else there may be
EXTRAS = ["maintained", "maintaining", "invalid", "events"]
# kind: first version that has it
SINCE = {"partial": 3, "foreign": 6, "invalid": 5, "events": 7}
KEY = "public-key"


def set_zone(name):
    os.environ["TZ"] = name
    time.tzset()


def when(i):
    # winter and summer, with and without fractions
    return datetime(2021, 1 + (i * 5) % 12, 3, 4 + i, 5, 6, 250000 * (i % 2))


def aware(t):
    return t.astimezone(timezone.utc).replace(microsecond=0)


def raw(path):
    conn = sqlite3.connect(path, isolation_level=None)
    conn.execute("PRAGMA synchronous = OFF")
    conn.execute("PRAGMA journal_mode = MEMORY")
    return conn


def text(version, t):
    return (t if version < 8 else t.astimezone(timezone.utc)).isoformat(" ")


def populate(conn, version, kinds):
    """
    Write rows in the manner of the release with this schema version.

    :return: what must be there from then on.
    """
    vouchers = {}
    tokens = {"spendable": set(), "held": set(), "random": {}, "invalid": {}}
    events = []
    activity = None

    def insert(table, **row):
        row = {k if k == "serialized_arguments" else k.replace("_", "-"): v for k, v in row.items()}
        conn.execute(
            "INSERT INTO [%s] (%s) VALUES (%s)"
            % (table, ", ".join("[%s]" % k for k in row), ", ".join("?" for _ in row)),
            list(row.values()),
        )

    def voucher(i, state, finished=None, count=None, counter=0, sequestered=0):
        number = zk.voucher_number("old/%d" % i).decode()
        row = dict(number=number, created=text(version, when(i)), state=state)
        row["finished"] = finished and text(version, finished)
        row["token_count"] = count
        if 2 <= version:
            row["public_key"] = KEY if count is not None else None
        if 3 <= version:
            row["counter"] = counter
        if 4 <= version:
            row["expected_tokens"] = 10
        if 6 <= version:
            row["sequestered_count"] = sequestered
            if sequestered:
                row["public_key"] = None
        insert("vouchers", **row)
        s = {
            "pending": lambda: Pending(counter),
            "redeemed": lambda: Redeemed(aware(finished), count),
            "double-spend": lambda: DoubleSpend(aware(finished)),
        }[state]()
        vouchers[number] = (aware(when(i)), 10 if version >= 4 else 32768, s)
        return number

    def unblinded(i, number, n, spendable=True):
        group = None
        if version >= 6:
            insert("redemption-groups", voucher=number, spendable=spendable, public_key=KEY)
            ((group,),) = conn.execute("SELECT last_insert_rowid()").fetchall()
        for k in range(n):
            t = zk.unblinded_token("old/%d/%d" % (i, k)).unblinded_token.decode()
            row = dict(token=t)
            if group is not None:
                row["redemption_group"] = group
            insert("unblinded-tokens", **row)
            tokens["spendable" if spendable else "held"].add(t)

    def random(i, number, counter, n):
        for k in range(n):
            t = zk.random_token("old/%d/%d" % (i, k)).token_value.decode()
            row = dict(text=t, voucher=number)
            if version >= 4:
                row["counter"] = counter
            else:
                counter = 0
            insert("tokens", **row)
            tokens["random"].setdefault((number, counter), set()).add(t)

    for kind in kinds:
        i = (KINDS + EXTRAS).index(kind)
        if kind == "new":
            voucher(i, "pending")
        elif kind == "tokens":
            random(i, voucher(i, "pending"), 0, 2)
        elif kind == "partial":
            n = voucher(i, "pending", when(i + 1), 4, counter=2)
            unblinded(i, n, 4)
            if version >= 4:
                random(i, n, 2, 2)
        elif kind == "redeemed":
            unblinded(i, voucher(i, "redeemed", when(i + 1), 10, counter=5), 3)
        elif kind == "spent":
            voucher(i, "double-spend", when(i + 1))
        elif kind == "foreign":
            unblinded(i, voucher(i, "redeemed", when(i + 1), 0, counter=5, sequestered=3), 3, False)
        elif kind == "maintained":
            insert("lease-maintenance-spending", started=text(version, when(i)), finished=text(version, when(i + 1)), count=7)
            activity = (aware(when(i)), 7, aware(when(i + 1)))
        elif kind == "maintaining":
            insert("lease-maintenance-spending", started=text(version, when(i)), finished=None, count=3)
        elif kind == "invalid":
            t = zk.unblinded_token("old/bad").unblinded_token.decode()
            insert("invalid-unblinded-tokens", token=t, reason="bad")
            tokens["invalid"][t] = "bad"
        elif kind == "events":
            row = dict(statement="UPDATE [vouchers] SET [counter] = 9 WHERE [number] = 'x'", important=True)
            arguments = []
            if version >= 9:
                row["statement"] = "UPDATE [vouchers] SET [counter] = ? WHERE [number] = ?"
                row["serialized_arguments"] = b"\x82\x09\x61x"
                arguments = [9, "x"]
            insert("event-stream", **row)
            events.append((1, row["statement"], arguments, True))
    return vouchers, tokens, events, activity


def shape(path):
    return {
        t: sorted(c[1:] for c in columns) for t, columns in zk.schema_of(path).items() if t != "sqlite_sequence"
    }


_fresh = {}


def fresh_shape():
    pid = os.getpid()
    if pid not in _fresh:
        path = zk.fresh_path("fresh")
        conn = zk.open_conn(path)
        zk.make_store(conn)
        conn.close()
        _fresh[pid] = shape(path)
        zk.remove(path)
    return _fresh[pid]


def seconds(t):
    return None if t is None else t.replace(microsecond=0)


def plain(state):
    if isinstance(state, Redeemed):
        return ("redeemed", seconds(state.finished), state.token_count)
    if isinstance(state, DoubleSpend):
        return ("double-spend", seconds(state.finished))
    return ("pending", state.counter)


class Fault:
    """
    One crash or error, at a chosen change.
    """

    def __init__(self, ch, can):
        self.ch = ch
        self.can = can
        self.happened = None

    def __call__(self, kind, sql):
        if not self.can or self.happened:
            return
        if kind == "committed":
            k = self.ch.pick(["-", "crash"], "committed")
        else:
            k = self.ch.pick(["-", "crash", "error"], "%s %s" % (kind, " ".join(sql.split())[:40]))
        if k == "-":
            return
        self.happened = k
        if k == "crash":
            raise zk.Crash()
        raise sqlite3.OperationalError("disk I/O error")


def attempt(ch, path, can, replicating=False):
    """
    Open the store like the plugin does.

    :return: what happened instead, or None
    """
    conn = zk.open_conn(path)
    conn.hook = fault = Fault(ch, can)
    try:
        zk.make_store(conn, replicating)
    except zk.Crash:
        return "crash"
    except Exception as e:
        check(fault.happened == "error", "an old database could not be opened", why=repr(e))
        return "error"
    else:
        check(fault.happened in (None, "crash"), "an error went unnoticed")
        return fault.happened
    finally:
        conn.hook = None
        conn.kill()


def examine(path, expected, replicating=False):
    vouchers, tokens, events, activity = expected
    check(
        shape(path) == fresh_shape(),
        "an upgraded database does not have the current schema",
        got=shape(path),
        current=fresh_shape(),
    )
    before = zk.dump(path)
    conn = zk.open_conn(path)
    store = zk.make_store(conn, replicating)
    check(zk.dump(path) == before, "opening the store again changes it")
    try:
        got = {
            v.number.decode(): (seconds(v.created), v.expected_tokens, plain(v.state)) for v in store.list()
        }
    except Exception as e:
        raise Violation("the vouchers cannot be read after the upgrade", {"why": repr(e)})
    want = {n: (c, e, plain(s)) for n, (c, e, s) in vouchers.items()}
    check(got == want, "vouchers differ after the upgrade", got=got, want=want)
    for n in vouchers:
        v = store.get(n.encode())
        check((seconds(v.created), v.expected_tokens, plain(v.state)) == want[n], "get and list disagree", number=n)
    n = store.count_unblinded_tokens()
    have = {t.unblinded_token.decode() for t in store.get_unblinded_tokens(n)} if n else set()
    check(
        have == tokens["spendable"],
        "the spendable tokens differ after the upgrade",
        missing=len(tokens["spendable"] - have),
        additional=len(have - tokens["spendable"]),
    )
    rows = dict(before["unblinded-tokens"]).keys() if before["unblinded-tokens"] else set()
    check(set(rows) == tokens["spendable"] | tokens["held"], "tokens are lost after the upgrade")
    check(dict(before["invalid-unblinded-tokens"]) == tokens["invalid"], "invalid tokens differ after the upgrade")
    total = 0
    for (number, counter), values in tokens["random"].items():
        total += len(values)

        def never():
            raise Violation("random tokens are made anew after the upgrade")

        back = store.add(number.encode(), vouchers[number][1], counter, never)
        check({t.token_value.decode() for t in back} == values, "random tokens differ after the upgrade")
    check(store.count_random_tokens() == total, "the number of random tokens differs after the upgrade")
    latest = store.get_latest_lease_maintenance_activity()
    if latest is not None:
        latest = (seconds(latest.started), latest.passes_required, seconds(latest.finished))
    check(latest == activity, "maintenance activity differs after the upgrade", got=latest, want=activity)
    if not replicating:
        got = [(c.sequence, c.statement, list(c.arguments), bool(c.important)) for c in get_events(conn).changes]
        check(got == events, "recorded events differ after the upgrade", got=got, want=events)
    conn.kill()


def build(ch, bounds, kinds, zones=("America/New_York",)):
    """
    An old database.
    """
    zone = ch.pick(zones, "zone")
    set_zone(zone)
    final = ch.choose(LATEST, "version") + 1
    made = [final] + [v for v in bounds["grown"] if v < final]
    start = ch.pick(made, "filled at")
    kinds = [k for k in kinds if start >= SINCE.get(k, 0)]
    path = zk.fresh_path("old")
    conn = raw(path)
    history.make(conn, start)
    expected = populate(conn, start, kinds)
    history.make(conn, final, start)
    conn.close()
    return path, expected


def contents(bounds):
    def scenario(ch):
        kinds = [k for k in KINDS if ch.choose(2, k)]
        kinds += EXTRAS if ch.choose(2, "extras") else []
        path, expected = build(ch, bounds, kinds, ZONES)
        try:
            attempt(ch, path, False)
            examine(path, expected)
        finally:
            zk.remove(path)
        return "%d kinds" % len(kinds)

    return scenario


def crashes(bounds):
    def scenario(ch):
        kinds = ch.pick(bounds["kinds"], "contents")
        kinds = {"empty": [], "all": KINDS + EXTRAS, "partial": ["partial"]}[kinds]
        if ch.choose(2, "nothing at all"):
            kinds = []
            path = zk.fresh_path("old")
            expected = {}, {"spendable": set(), "held": set(), "random": {}, "invalid": {}}, [], None
        else:
            path, expected = build(ch, bounds, kinds)
        faults = []
        try:
            for left in reversed(range(bounds["faults"] + 1)):
                r = attempt(ch, path, left > 0)
                if r is None:
                    break
                faults.append(r)
            examine(path, expected)
        finally:
            zk.remove(path)
        return " ".join(faults)

    return scenario


class Never:
    def should_snapshot(self, *a):
        return False


def replicas(bounds):
    """
    A store that is replicating is upgraded: the old snapshot with what is recorded since
    gives the current state.  An old replica can be recovered right away.
    """

    def scenario(ch):
        kinds = KINDS + ["maintained", "invalid"]
        path, expected = build(ch, bounds, kinds)
        paths = [path]
        try:
            conn = raw(path)
            before = snapshot(conn)
            conn.close()
            streams = []
            local = None
            if ch.choose(2, "upgraded here"):
                for left in reversed(range(bounds["faults"] + 1)):
                    if attempt(ch, path, left > 0, True) is None:
                        break
                conn = zk.open_conn(path)
                wrapped = with_replication(conn, True)
                store = VoucherStore.from_connection(2**20, lambda: zk.NOW, wrapped)
                grid = Grid()
                cap = grid.make_directory()
                grid.link(cap, "snapshot", grid.add_file(before))
                replica = get_tahoe_lafs_direntry_replica(Client(grid, zk.scratch(), immediate=True), cap)
                service = replication_service(wrapped, replica, Never())
                service.startService()
                v = zk.voucher_number("later")
                store.add(v, 2, 0, lambda: [zk.random_token("later/%d" % k) for k in range(2)])
                store.insert_unblinded_tokens_for_voucher(
                    v, "key", [zk.unblinded_token("later/%d" % k) for k in range(2)], completed=True, spendable=True
                )
                service.queue_event_upload()
                service.stopService()
                found = grid.contents(cap)
                before = found.pop("snapshot")
                streams = list(found.values())
                conn.kill()
                local = zk.dump(path, skip=("event-stream", "sqlite_sequence"))
            new = zk.fresh_path("new")
            paths.append(new)
            conn = zk.open_conn(new)
            store = zk.make_store(conn)
            wrapped = with_replication(conn, False)
            cursor = wrapped.cursor()
            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
            try:
                with wrapped:
                    recover(lambda: io.BytesIO(before), [lambda d=d: io.BytesIO(d) for d in streams], cursor)
            except Exception as e:
                raise Violation("an old replica cannot be recovered", {"why": repr(e)})
            # It is of use at once
            w = zk.voucher_number("right away")
            got = zk.dump(new, skip=("event-stream", "sqlite_sequence"))
            if local is not None:
                check(
                    got == local,
                    "the replica of an upgraded store is not up to date",
                    differ=[t for t in sorted(set(got) | set(local)) if got.get(t) != local.get(t)],
                )
            check(shape(new) == fresh_shape(), "a recovered store does not have the current schema")
            conn.kill()
            if local is None:
                examine(new, expected, True)
        finally:
            for p in paths:
                zk.remove(p)
        return "upgraded" if local is not None else "old replica"

    return scenario


if __name__ == "__main__":
    check_ = Check(
        "M01",
        "fault_enumeration",
        "for every earlier schema version (frozen copies of the released schema changes), filled at that or an earlier "
        "version with rows of every kind the release could hold, the real store is opened, with crashes and errors at "
        "every change and commit of the upgrade, and then compared with what was put in",
        [
            "SQLite's own transactions are atomic; a crash is between two statements",
            "times are kept to the second, as the upgrade of naive times says",
        ],
        [
            Scenario("contents", contents, quick=dict(grown=[]), thorough=dict(grown=list(range(1, LATEST)))),
            Scenario(
                "crashes",
                crashes,
                quick=dict(faults=2, grown=[], kinds=["all"]),
                thorough=dict(faults=2, grown=[3, 5, 7], kinds=["empty", "all", "partial"]),
            ),
            Scenario("replicas", replicas, quick=dict(faults=1, grown=[]), thorough=dict(faults=2, grown=[5, 7])),
        ],
    )
    raise SystemExit(check_.main())
