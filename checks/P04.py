"""
P04: recovery touches only an empty store and is all or nothing.
"""

import io
import os
import shutil
import sqlite3

import cbor2

from _zkapauthorizer.model import VoucherStore
from _zkapauthorizer.recover import get_tahoe_lafs_downloader, statements_from_snapshot
from _zkapauthorizer.replicate import (
    Change,
    EventStream,
    get_tahoe_lafs_direntry_replica,
    replication_service,
    snapshot,
    statements_to_snapshot,
    with_replication,
)
from _zkapauthorizer.resource import RecoverFactory

from mc import zk
from mc.core import Violation, check
from mc.grid import Client, Grid
from mc.runner import Check, Scenario

SKIP = ("event-stream", "sqlite_sequence")


def durable(path):
    return zk.dump(path, skip=SKIP)


# ------------------------------------------------------------------ replicas


def fill(store, n, done):
    for i in range(1, n + 1):
        v = zk.voucher_number("source/%d" % i)
        store.add(v, 2, 0, lambda: [zk.random_token("s%d/%d" % (i, k)) for k in range(2)])
        if i in done:
            store.insert_unblinded_tokens_for_voucher(
                v, "key", [zk.unblinded_token("s%d/%d" % (i, k)) for k in range(2)], completed=True, spendable=True
            )


class Never:
    def should_snapshot(self, *a):
        return False


_built = {}


def build():
    """
    {kind: ({name: bytes}, what is recovered | None)}, from a real replicating store.
    """
    if _built:
        return _built
    grid = Grid()
    cap = grid.make_directory()
    d = zk.fresh_path("source")
    os.makedirs(d)
    path = zk.new_db()
    conn = zk.open_conn(path)
    wrapped = with_replication(conn, True)
    store = VoucherStore.from_connection(2**20, lambda: zk.NOW, wrapped)
    fill(store, 2, {2})
    at_snapshot = durable(path)
    client = Client(grid, d, immediate=True)
    service = replication_service(wrapped, get_tahoe_lafs_direntry_replica(client, cap), Never())
    service.startService()
    m = store.start_lease_maintenance()
    m.observe([1000])
    m.finish()
    for i in (3, 4):
        v = zk.voucher_number("source/%d" % i)
        store.add(v, 2, 0, lambda: [zk.random_token("s%d/%d" % (i, k)) for k in range(2)])
    at_end = durable(path)
    service.stopService()
    good = grid.contents(cap)
    conn.close()
    zk.remove(path)
    shutil.rmtree(d)
    streams = {n: b for n, b in good.items() if n != "snapshot"}
    assert len(streams) == 2, sorted(good)
    first, last = sorted(streams, key=lambda n: int(n.rsplit("-", 1)[1]))
    snap = good["snapshot"]
    statements = list(statements_from_snapshot(lambda: io.BytesIO(snap)))
    assert statements[-1] == "COMMIT;", statements[-1]

    def with_statement(s):
        return statements_to_snapshot(iter(statements[:-1] + [s, "COMMIT;"]))

    def with_event(s, args=()):
        es = EventStream.from_bytes(io.BytesIO(streams[last]))
        changes = list(es.changes)
        n = changes[-1].sequence
        return EventStream(changes + [Change(n + 1, s, args, False)]).to_bytes().read()

    orphan = "INSERT INTO [tokens] ([text], [voucher], [counter]) VALUES ('lost', 'nobody', 0)"
    _built.update(
        {
            "good": (good, at_end),
            "snapshot only": ({"snapshot": snap}, at_snapshot),
            "events only": (streams, None),
            "nothing": ({}, None),
            "garbage snapshot": (dict(good, snapshot=b"\xff garbage"), None),
            "future snapshot": (dict(good, snapshot=cbor2.dumps({"version": 2, "statements": []})), None),
            "bad statement": (dict(good, snapshot=with_statement("INSERT INTO [nothing] VALUES (1)")), None),
            "orphan row": (dict(good, snapshot=with_statement(orphan)), None),
            "garbage events": (dict(good, **{last: streams[last][:-7]}), None),
            "bad event": (dict(good, **{last: with_event("INSERT INTO [nothing] VALUES (1)")}), None),
            "orphan event": (dict(good, **{last: with_event(orphan)}), None),
            "unreadable events": (dict(good, **{first: b""}), None),
        }
    )
    return _built


KINDS = [
    "good", "snapshot only", "events only", "nothing", "garbage snapshot", "future snapshot", "bad statement",
    "orphan row", "garbage events", "bad event", "orphan event", "unreadable events",
]
LOCALS = ["fresh", "maintained", "pending", "redeemed", "double-spent"]


class Peer:
    """A client of the recovery interface."""

    def __init__(self):
        self.got = []
        self.closed = None

    def sendMessage(self, msg, isBinary=False):
        import json

        self.got.append(json.loads(msg))

    def sendClose(self, code=None, reason=None):
        self.closed = (code, reason)


class World:
    def __init__(self, ch, b):
        self.ch, self.b = ch, b
        self.left = {k: b.get(k, 0) for k in ("points", "errors", "failures", "crashes", "others", "asks")}
        self.quiet = True
        self.kind = ch.pick(b["kinds"], "replica")
        self.local = ch.pick(b["locals"], "local")
        self.replicating = bool(ch.choose(2, "local replication", ["off", "on"])) if b["replicating"] else False
        contents, self.expected = build()[self.kind]
        self.grid = Grid()
        self.cap = self.grid.make_directory()
        for name, data in contents.items():
            self.grid.link(self.cap, name, self.grid.add_file(data))
        # Another replica, which must not be mixed in.
        self.cap2 = self.grid.make_directory()
        self.grid.link(self.cap2, "snapshot", self.grid.add_file(build()["snapshot only"][0]["snapshot"]))
        self.dir = zk.fresh_path("node")
        os.makedirs(self.dir)
        self.path = zk.new_db()
        self.accepted = []
        self.errors = []
        self.open()
        if self.local == "maintained":
            self.op_maintain()
        elif self.local != "fresh":
            fill(self.store, 1, {1} if self.local == "redeemed" else ())
            if self.local == "double-spent":
                self.store.mark_voucher_double_spent(zk.voucher_number("source/1"))
        self.before = durable(self.path)
        self.empty = self.local in ("fresh", "maintained")
        self.client = Client(self.grid, self.dir)
        self.factory = RecoverFactory(self.store, get_tahoe_lafs_downloader(self.client))
        self.peers = []

    def open(self):
        self.conn = zk.open_conn(self.path)
        self.conn.hook = self.hook
        wrapped = with_replication(self.conn, self.replicating)
        self.store = VoucherStore.from_connection(2**20, lambda: zk.NOW, wrapped)
        if self.replicating:
            self.own = self.grid.make_directory()
            self.replication = Client(self.grid, self.dir, immediate=True)
            self.service = replication_service(
                wrapped, get_tahoe_lafs_direntry_replica(self.replication, self.own), Never()
            )
            self.service.startService()

    def hook(self, kind, sql):
        if self.quiet or not (self.left["points"] or self.left["errors"]):
            return
        names = ["-"]
        if self.left["points"]:
            names.append("crash")
        if self.left["errors"] and kind != "committed":
            names.append("error")
        a = names[self.ch.choose(len(names), "at %s %s" % (kind, " ".join(sql.split())[:40]), names)]
        if a == "crash":
            self.left["points"] -= 1
            raise zk.Crash()
        if a == "error":
            self.left["errors"] -= 1
            self.errors.append(kind)
            raise sqlite3.OperationalError("disk I/O error")

    # ----------------------------------------------------- what others do

    def op_add(self):
        n = "other/%d" % len(self.accepted)
        v = zk.voucher_number(n)
        self.store.add(v, 2, 0, lambda: [zk.random_token("%s/%d" % (n, k)) for k in range(2)])
        self.accepted.append(v)

    def op_maintain(self):
        m = self.store.start_lease_maintenance()
        m.observe([1000])
        m.finish()

    def op_list(self):
        self.store.list()

    def op_count(self):
        self.store.count_unblinded_tokens()

    def op_take(self):
        self.store.get_unblinded_tokens(1)

    def op_snapshot(self):
        self.store.snapshot()

    def ask(self, cap):
        peer = Peer()
        self.peers.append(peer)
        self.factory.initiate_recovery(cap.reader, peer)
        return peer

    # ----------------------------------------------------- exploration

    def guarded(self, fn):
        self.quiet = False
        try:
            fn()
        except zk.Crash:
            pass
        finally:
            self.quiet = True
        return not self.conn.dead

    def crash(self):
        """The process dies; what is there afterwards?"""
        self.conn.kill()
        self.replicating = False
        got = durable(self.path)
        allowed = [self.before]
        if self.expected is not None and self.empty and not self.failed:
            allowed.append(self.expected)
        if not self.others_wrote:
            check(
                got in allowed,
                "a crash leaves neither the state before the recovery nor the recovered one",
                found=got,
                before=self.before,
                recovered=self.expected,
            )
        self.open()
        check(self.others_wrote or durable(self.path) in allowed, "the state changes when the store is opened again")
        self.still_works()
        return "crashed: " + ("recovered" if got != self.before else "as before")

    def still_works(self):
        v = zk.voucher_number("later")
        self.store.add(v, 2, 0, lambda: [zk.random_token("later/%d" % k) for k in range(2)])
        conn = sqlite3.connect(self.path)
        n = conn.execute("SELECT count(1) FROM [vouchers] WHERE [number] = ?", (v.decode(),)).fetchone()[0]
        conn.close()
        check(n == 1, "a voucher accepted after the recovery is not durable")

    def run(self):
        ch = self.ch
        self.others_wrote = False
        self.failed = False
        if not self.guarded(lambda: self.ask(self.cap)):
            return self.crash()
        first = self.peers[0]
        listed = 0
        while True:
            over = self.over()
            acts = []
            if self.client.pending:
                acts.append("ok")
                if self.left["failures"]:
                    acts.append("fail")
            elif over:
                acts.append("end")
            else:
                raise Violation("the recovery waits for nothing", {"got": first.got})
            if self.left["crashes"]:
                acts.append("crash")
            if self.left["others"] and not over:
                acts += ["add", "maintain", "list", "count", "take", "snapshot"]
            if self.left["asks"]:
                acts += ["ask the same", "ask another"]
            check(len(self.client.pending) <= 1, "more than one recovery is running", pending=self.client.pending)
            a = ch.pick(acts, "do")
            if a == "end":
                break
            if a in ("ok", "fail"):
                op = self.client.pending[0]
                if op.name == "list":
                    listed += 1
                if a == "fail":
                    self.left["failures"] -= 1
                    self.failed = True
                if not self.guarded(getattr(op, a)):
                    return self.crash()
            elif a == "crash":
                self.left["crashes"] -= 1
                return self.crash()
            elif a in ("ask the same", "ask another"):
                self.left["asks"] -= 1
                self.guarded(lambda: self.ask(self.cap if a == "ask the same" else self.cap2))
                if self.conn.dead:
                    return self.crash()
            else:
                self.left["others"] -= 1
                before = durable(self.path)
                try:
                    getattr(self, "op_" + a)()
                except sqlite3.OperationalError:
                    ch.note("refused for now")
                    check(durable(self.path) == before, "a refused operation has an effect")
                except Exception as e:
                    ch.note(repr(e))
                if durable(self.path) != before:
                    self.others_wrote = True
            if not self.over():
                check(
                    self.others_wrote or durable(self.path) == self.before,
                    "an unfinished recovery is visible in the database",
                )
        return self.verdict(first, listed)

    def over(self):
        return self.peers[0].closed is not None

    def verdict(self, first, listed):
        check(not self.conn.in_transaction, "a transaction is left open after the recovery")
        got = durable(self.path)
        stages = [m["stage"] for m in first.got]
        check(stages, "no state was reported")
        final = first.got[-1]
        if not self.empty:
            check(listed == 0 and not self.client.performed, "a recovery was started on a store with vouchers")
            check(final["stage"] == "import_failed" and final["failure-reason"], "the refusal is not reported", got=first.got)
            want = self.before
        elif final["stage"] == "succeeded":
            check(self.expected is not None, "a broken replica was recovered successfully", replica=self.kind)
            check(not self.failed and not self.errors, "success is reported after a failure", failures=self.errors)
            fetched = [arg for name, arg in self.client.performed if name == "download"]
            check(len(fetched) == len(set(fetched)), "the replica was downloaded twice", downloads=fetched)
            want = self.expected
        else:
            check(
                final["failure-reason"] is not None and final["stage"] in ("download_failed", "import_failed"),
                "the recovery does not end in success or a failure with a reason",
                got=first.got,
            )
            check(
                self.expected is None or self.failed or self.errors or self.others_wrote,
                "recovery of a good replica fails",
                got=first.got,
            )
            if self.failed or self.kind in ("events only", "nothing"):
                check(final["stage"] == "download_failed", "a failed download is reported otherwise", got=first.got)
            else:
                check(final["stage"] == "import_failed", "a failed import is reported otherwise", got=first.got)
            want = self.before
        if not self.others_wrote:
            check(
                got == want,
                "the store is not %s" % ("what the replica holds" if want is self.expected else "as it was before the recovery"),
                reported=final,
                found={t: r for t, r in got.items() if r != want.get(t)},
                expected={t: r for t, r in want.items() if r != got.get(t)},
            )
        for v in self.accepted:
            check((v.decode(),) in [r[:1] for r in got["vouchers"]], "an accepted voucher is gone")
        self.still_works()
        if self.replicating:
            self.audit_own_replica()
        out = final["stage"]
        self.conn.close()
        zk.remove(self.path)
        shutil.rmtree(self.dir)
        return out

    def audit_own_replica(self):
        """What this node replicates is still its own state."""
        import P01

        stage, reason, dump = P01.really_recovered(self.grid, self.own.reader)
        check(dump == durable(self.path), "this node's own replica does not hold its state", stage=stage, reason=reason)


def make(b):
    def scenario(ch):
        w = World(ch, b)
        try:
            return w.run()
        finally:
            shutil.rmtree(w.dir, ignore_errors=True)
            try:
                w.conn.close()
            except Exception:
                pass
            zk.remove(w.path)

    return scenario


CHECK = Check(
    "P04",
    "model_checking",
    "all kinds of replica and of local state, every statement as a crash or failure point, all interleavings of "
    "gateway completions and failures with other operations on the store and further requests",
    ["SQLite commits atomically", "tokens never exist without their voucher (nothing deletes vouchers)"],
    [
        Scenario(
            "replicas",
            make,
            quick=dict(kinds=KINDS, locals=LOCALS, replicating=True, failures=1, asks=1, crashes=1),
            thorough=dict(kinds=KINDS, locals=LOCALS, replicating=True, failures=1, asks=2, crashes=1, others=1),
        ),
        Scenario(
            "statements",
            make,
            quick=dict(kinds=KINDS, locals=["fresh", "maintained"], replicating=True, points=1, errors=1),
            thorough=dict(kinds=KINDS, locals=LOCALS, replicating=True, points=1, errors=2, asks=1),
        ),
        Scenario(
            "others",
            make,
            quick=dict(kinds=["good", "bad event"], locals=["fresh", "pending"], replicating=True, failures=1, others=2),
            thorough=dict(kinds=KINDS, locals=LOCALS, replicating=True, failures=1, others=3, asks=1),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
