"""
P01: the replica restores the local state, after any crash and at any time.
"""

import hashlib
import os
import shutil
import sqlite3

from _zkapauthorizer.model import VoucherStore
from _zkapauthorizer.recover import (
    RecoveryStages,
    StatefulRecoverer,
    get_tahoe_lafs_downloader,
)
from _zkapauthorizer.replicate import (
    get_tahoe_lafs_direntry_replica,
    replication_service,
    with_replication,
)

from functools import partial

from mc import zk
from mc.core import Violation, check
from mc.grid import Client, Grid
from mc.runner import Check, Scenario

SKIP = ("event-stream", "sqlite_sequence")
TEMP = ("in-use", "to-discard", "to-reset")


def durable(path):
    return zk.dump(path, skip=SKIP)


CACHE = {}


def recovered(grid, cap, keep=None):
    """
    What recovery gives depends on the replica's content only.
    """
    if keep is not None:
        return really_recovered(grid, cap, keep)
    key = hashlib.sha256(repr(sorted(grid.contents(cap).items())).encode()).digest()
    if key not in CACHE:
        if len(CACHE) > 5000:
            CACHE.clear()
        CACHE[key] = really_recovered(grid, cap)
    return CACHE[key]


def really_recovered(grid, cap, keep=None):
    """
    Recover from the replica with the real code into a new node.

    :return: (stage, reason, dump)
    """
    d = zk.fresh_path("new")
    os.makedirs(d)
    path = zk.new_db()
    conn = zk.open_conn(path)
    store = zk.make_store(conn)
    client = Client(grid, d, immediate=True)
    rec = StatefulRecoverer()
    out = zk.run(store.call_if_empty(partial(rec.recover, get_tahoe_lafs_downloader(client)(cap))))
    check(out[0] != "pending", "recovery does not end")
    stage = rec.state()
    dump = None
    if out[0] == "ok":
        cur = sqlite3.Connection.cursor(conn)
        temp = {}
        for t in TEMP:
            cur.execute("SELECT * FROM [%s]" % t)
            temp[t] = cur.fetchall()
        cur.close()
        dump = durable(path)
        if stage.stage == RecoveryStages.succeeded:
            check(
                not any(temp.values()),
                "the recovered store holds tokens as if in use by its process",
                temp=temp,
            )
    conn.close()
    shutil.rmtree(d)
    if keep is not None:
        shutil.copyfile(path, keep)
    zk.remove(path)
    return (stage.stage if out[0] == "ok" else out, stage.failure_reason, dump)


class Policy:
    def __init__(self, world):
        self.world = world

    def should_snapshot(self, snapshot_size, replica_sizes):
        w = self.world
        if w.left["snapshots"] and not w.quiet:
            if w.ch.choose(2, "policy", ["-", "snapshot"]):
                w.left["snapshots"] -= 1
                return True
        return False


_other = []


def other_replica():
    """
    A replica of another node: a snapshot with three vouchers and one event stream.
    """
    if not _other:
        grid = Grid()
        cap = grid.make_directory()
        d = zk.fresh_path("other")
        os.makedirs(d)
        path = zk.new_db()
        conn = zk.open_conn(path)
        wrapped = with_replication(conn, True)
        store = VoucherStore.from_connection(2**20, lambda: zk.NOW, wrapped)
        for i in range(1, 6):
            v = zk.voucher_number("other/%d" % i)
            store.add(v, 2, 0, lambda: [zk.random_token("%s/%d" % (v, i)) for i in range(2)])
            if i > 3:
                store.insert_unblinded_tokens_for_voucher(
                    v, "key", [zk.unblinded_token("%s/%d" % (v, i)) for i in range(2)], completed=True, spendable=True
                )
        client = Client(grid, d, immediate=True)
        service = replication_service(
            wrapped, get_tahoe_lafs_direntry_replica(client, cap), Never()
        )
        service.startService()
        m = store.start_lease_maintenance()
        m.observe([1000])
        m.finish()
        store.add(
            zk.voucher_number("other/6"), 2, 0, lambda: [zk.random_token("other/6/%d" % i) for i in range(2)]
        )
        service.stopService()
        conn.close()
        zk.remove(path)
        shutil.rmtree(d)
        _other.append((grid, cap.reader))
    return _other[0]


class Never:
    def should_snapshot(self, *a):
        return False


class World:
    def __init__(self, ch, b):
        self.ch = ch
        self.b = b
        self.left = {k: b.get(k, 0) for k in ("crashes", "failures", "snapshots", "stops", "points")}
        self.quiet = True
        self.grid = Grid()
        self.cap = self.grid.make_directory()
        self.dir = zk.fresh_path("node")
        os.makedirs(self.dir)
        self.path = zk.new_db()
        self.history = []  # durable states in order of commit
        self.floor = 0
        self.important = 0  # index of the state with the last important change
        self.failures = []
        self.v = 0
        self.groups = []  # vouchers with random tokens waiting for redemption
        self.taken = []
        self.seq_at_upload = None
        self.proc = False
        if b.get("existing"):
            conn = zk.open_conn(self.path)
            store = zk.make_store(conn)
            self.op_add(store)
            conn.close()
        self.committed()
        self.start()
        self.quiet = False

    # ---------------------------------------------------------- the process

    def hook(self, kind, sql):
        if kind == "committed":
            self.committed()
        if self.quiet or not self.left["points"]:
            return
        if self.ch.choose(2, "at %s %s" % (kind, " ".join(sql.split())[:30]), ["-", "crash"]):
            self.left["points"] -= 1
            raise zk.Crash()

    def start(self):
        quiet, self.quiet = self.quiet, True
        self.conn = zk.open_conn(self.path)
        self.conn.hook = self.hook
        wrapped = with_replication(self.conn, True)
        self.store = VoucherStore.from_connection(2**20, lambda: zk.NOW, wrapped)
        self.taken = []
        self.client = Client(self.grid, self.dir)
        self.service = replication_service(
            wrapped, get_tahoe_lafs_direntry_replica(self.client, self.cap), Policy(self)
        )
        self.service.startService()
        self.failures = []
        self.quiet = quiet
        self.proc = True

    def die(self):
        self.proc = False
        self.conn.kill()
        for op in self.client.pending:
            if self.ch.choose(2, "the last %s" % op.name, ["never happened", "happened"]):
                try:
                    op.apply()
                except Exception:
                    pass
        self.client.pending = []
        self.committed()

    def stop(self):
        self.proc = False
        op = list(self.client.pending)
        d = self.service.stopService()
        check(zk.result_of(d)[0] == "ok", "the service does not stop cleanly")
        for o in op:
            if self.ch.choose(2, "the last %s" % o.name, ["never happened", "happened"]):
                try:
                    o.apply()
                except Exception:
                    pass
        self.conn.close()

    def committed(self):
        s = durable(self.path)
        if not self.history or self.history[-1] != s:
            self.history.append(s)
            return True
        return False

    def guarded(self, fn):
        """Run code of the process which may crash in it."""
        try:
            fn()
        except zk.Crash:
            pass
        if self.conn.dead:
            self.ch.note("crashed")
            self.die()
            self.start()
            return False
        return True

    # ---------------------------------------------------------- operations

    def op_add(self, store=None):
        self.v += 1
        v = zk.voucher_number(self.v)
        (store or self.store).add(v, 2, 0, lambda: [zk.random_token("%s/%d" % (v, i)) for i in range(2)])
        self.groups.append(v)

    def op_redeem(self):
        v = self.groups.pop(0)
        self.store.insert_unblinded_tokens_for_voucher(
            v, "key", [zk.unblinded_token("%s/%d" % (v, i)) for i in range(2)], completed=True, spendable=True
        )

    def op_take(self):
        self.taken.append(self.store.get_unblinded_tokens(1))

    def op_spend(self):
        self.store.discard_unblinded_tokens(self.taken.pop(0))

    def op_invalid(self):
        self.store.invalidate_unblinded_tokens("why", self.taken.pop(0))

    def op_reset(self):
        self.store.reset_unblinded_tokens(self.taken.pop(0))

    def op_maintain(self):
        m = self.store.start_lease_maintenance()
        m.observe([1000])
        m.finish()

    def op_recover(self):
        """Recover another replica into this node, which replicates already."""
        grid, cap = other_replica()
        client = Client(grid, self.dir, immediate=True)
        rec = StatefulRecoverer()
        out = zk.run(self.store.call_if_empty(partial(rec.recover, get_tahoe_lafs_downloader(client)(cap))))
        if self.conn.dead:
            raise zk.Crash()
        check(
            out[0] == "ok" and rec.state().stage == RecoveryStages.succeeded,
            "recovery fails",
            outcome=out,
            stage=rec.state(),
        )
        for i in range(1, 4):
            self.groups.append(zk.voucher_number("other/%d" % i))

    def enabled_ops(self):
        ops = ["add"]
        if not self.store.list():
            ops.append("recover")
        if self.groups:
            ops.append("redeem")
        if len(self.taken) < 2 and self.store.count_unblinded_tokens():
            ops.append("take")
        if self.taken:
            ops += ["spend", "invalid", "reset"]
        ops.append("maintain")
        return [o for o in ops if o in self.b["which"]]

    def app(self, name):
        def go():
            getattr(self, "op_" + name)()

        if self.guarded(go):
            self.committed()
            if name == "add":
                self.important = len(self.history) - 1

    # ---------------------------------------------------------- the oracle

    def audit(self, caught_up=None):
        if self.proc and not self.conn.in_transaction:
            pass
        if "snapshot" not in self.grid.contents(self.cap):
            check(self.floor == 0 and not caught_up, "there is no snapshot in the replica any more")
            return
        stage, reason, dump = recovered(self.grid, self.cap.reader)
        check(
            stage == RecoveryStages.succeeded,
            "recovery from the replica fails",
            stage=stage,
            reason=reason,
            replica=sorted(self.grid.contents(self.cap)),
        )
        found = [i for i, s in enumerate(self.history) if s == dump]
        check(found, "what is recovered was never the local state", recovered=dump, local=self.history[-1])
        later = [i for i in found if i >= self.floor]
        check(
            later,
            "what is recovered is older than what was recovered before",
            recovered=dump,
            state=found,
            before=self.floor,
            replica=sorted(self.grid.contents(self.cap)),
        )
        self.floor = later[0]
        if caught_up is not None:
            check(
                max(later) >= caught_up,
                "all uploads are done but the replica is not up to date",
                recovered=max(later),
                expected=caught_up,
                local=len(self.history) - 1,
                replica=sorted(self.grid.contents(self.cap)),
            )

    def key(self):
        return (
            self.left,
            zk.dump(self.path),
            zk.dump(self.conn, temp=True, skip=()),
            sorted(self.grid.contents(self.cap).items()),
            [(repr(o), self.seq_at_upload) for o in self.client.pending],
            self.failures,
            zk.fingerprint(self.service),
            len(self.history) - self.floor,
            len(self.history) - self.important,
            [t.unblinded_token for g in self.taken for t in g],
        )

    def note_pending(self):
        for o in self.client.pending:
            if o.name == "upload":
                conn = sqlite3.connect(self.path)
                self.seq_at_upload = conn.execute(
                    "SELECT seq FROM sqlite_sequence WHERE name='event-stream'"
                ).fetchall()
                conn.close()

    # ---------------------------------------------------------- exploration

    def complete(self, how):
        op = self.client.pending[0]
        for f in self.failures:
            f[1] += 1
        if how != "ok":
            self.failures.append([repr(op), 0])
        self.guarded(getattr(op, how))

    def run(self):
        b, ch = self.b, self.ch
        done = 0
        while True:
            self.quiet = True
            acts = []
            if done < b["ops"]:
                acts += self.enabled_ops()
            if self.client.pending:
                acts.append("ok")
                if self.left["failures"]:
                    acts.append("fail")
                    if self.client.pending[0].name in ("link", "unlink", "upload"):
                        acts.append("lost")
            if self.left["crashes"]:
                acts.append("crash")
            if self.left["stops"]:
                acts.append("restart")
            if not self.client.pending:
                acts.append("end")
            self.quiet = False
            check(len(self.client.pending) <= 1, "two uploads at once")
            a = ch.pick(acts, "do")
            if a == "ok":
                self.complete("ok")
            elif a in ("fail", "lost"):
                self.left["failures"] -= 1
                self.complete(a)
            elif a == "crash":
                self.left["crashes"] -= 1
                self.die()
                self.start()
            elif a == "restart":
                self.left["stops"] -= 1
                self.stop()
                self.start()
            elif a == "end":
                break
            else:
                done += 1
                self.app(a)
            self.note_pending()
            if not ch.replaying:
                self.audit()
            else:
                self.cheap_floor()
            ch.visit(lambda: (done, self.key()))
        return self.epilogue()

    def cheap_floor(self):
        # Recompute the floor for replayed states, whose audit passed before.
        if "snapshot" in self.grid.contents(self.cap):
            self.audit()

    def drain(self):
        n = 0
        while self.client.pending:
            self.client.pending[0].ok()
            n += 1
            check(n < 200, "uploads never end")

    def epilogue(self):
        """From here on nothing fails."""
        self.quiet = True
        self.left = dict.fromkeys(self.left, 0)
        how = ["end"] if not self.failures else []
        how += ["change", "restart"]
        if self.b.get("second"):
            how.append("second")
        how = self.ch.pick(how, "then")
        if how == "change":
            self.app("add")
            self.drain()
            self.audit(caught_up=self.important)
            self.audit(caught_up=len(self.history) - 1)
        elif how == "restart":
            self.stop()
            self.start()
            self.drain()
            self.audit(caught_up=self.important)
        elif how == "end":
            self.audit(caught_up=self.important)
        else:
            self.second_generation()
            return how
        conn = sqlite3.connect(self.path)
        (n,) = conn.execute("SELECT count(1) FROM [event-stream]").fetchone()
        conn.close()
        if n == 0 and "snapshot" in self.grid.contents(self.cap):
            self.audit(caught_up=len(self.history) - 1)
        # Objects which the snapshot includes are pruned in the end.
        if how == "change":
            self.check_pruned()
        self.stop()
        zk.remove(self.path)
        shutil.rmtree(self.dir)
        return how

    def check_pruned(self):
        names = sorted(self.grid.contents(self.cap))
        check("snapshot" in names, "no snapshot after everything was uploaded", replica=names)

    def second_generation(self):
        """The recovered store is replicated in turn, and recovered again."""
        self.app("add")
        self.drain()
        self.stop()
        old = self.path
        keep = zk.fresh_path("second")
        stage, reason, dump = recovered(self.grid, self.cap.reader, keep)
        check(stage == RecoveryStages.succeeded, "recovery fails", stage=stage, reason=reason)
        self.path = keep
        self.cap = self.grid.make_directory()
        self.history = []
        self.floor = self.important = 0
        self.committed()
        self.start()
        for name in ("add", "redeem", "take", "spend", "add"):
            self.app(name)
            if name == "take":
                self.drain()
                self.audit()
        self.drain()
        self.audit(caught_up=len(self.history) - 1)
        self.stop()
        zk.remove(old)
        zk.remove(keep)
        shutil.rmtree(self.dir)


def make(b):
    def scenario(ch):
        return World(ch, b).run()

    return scenario


CHECK = Check(
    "P01",
    "model_checking",
    "all interleavings of store operations, completions and failures of each gateway operation, snapshot "
    "decisions, crashes and restarts; in every state the real recovery is run on the replica and compared",
    [
        "the grid applies each operation atomically, at its completion or not at all",
        "SQLite commits atomically",
        "one writer of the replica directory",
    ],
    [
        Scenario(
            "crashes",
            make,
            quick=dict(ops=2, crashes=1, failures=0, snapshots=1, which=["add", "redeem", "maintain"], existing=True),
            thorough=dict(ops=3, crashes=2, failures=0, snapshots=1, which=["add", "redeem", "maintain"], existing=True),
        ),
        Scenario(
            "failures",
            make,
            quick=dict(ops=2, crashes=0, failures=2, snapshots=1, which=["add", "redeem"], existing=True),
            thorough=dict(ops=3, crashes=1, failures=2, snapshots=1, which=["add", "redeem"], existing=True),
        ),
        Scenario(
            "statement-crashes",
            make,
            quick=dict(ops=2, points=1, snapshots=1, which=["add", "redeem"], existing=True),
            thorough=dict(ops=3, points=2, snapshots=1, which=["add", "redeem"], existing=True),
        ),
        Scenario(
            "spending",
            make,
            quick=dict(ops=4, crashes=1, which=["redeem", "take", "spend"], existing=True),
            thorough=dict(ops=5, crashes=2, snapshots=1, which=["add", "redeem", "take", "spend", "invalid", "reset"], existing=True),
        ),
        Scenario(
            "recovering",
            make,
            quick=dict(ops=2, crashes=1, snapshots=1, which=["add", "redeem", "maintain", "recover"]),
            thorough=dict(ops=3, crashes=1, points=1, snapshots=1, which=["add", "redeem", "maintain", "recover"]),
        ),
        Scenario(
            "first-use",
            make,
            quick=dict(ops=2, stops=1, snapshots=1, second=True, which=["add", "maintain"]),
            thorough=dict(ops=4, crashes=1, failures=1, snapshots=2, second=True, which=["add", "redeem", "maintain"]),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
