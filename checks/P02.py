"""
P02: the recorded events are exactly the changes of the committed transactions.
"""

import sqlite3

from _zkapauthorizer.model import ConnectionHaver, with_cursor
from _zkapauthorizer.recover import recover_event_stream, recover_snapshot
from _zkapauthorizer.replicate import (
    EventStream,
    Replica,
    connection_to_statements,
    get_events,
    replication_service,
    with_replication,
)
from twisted.internet.defer import Deferred

from mc import zk
from mc.core import Violation, check
from mc.runner import Check, Scenario


class Give_up(Exception):
    """The application abandons its transaction."""


class Never:
    def should_snapshot(self, snapshot_size, replica_sizes):
        return False


class Grid:
    """
    A replica with a snapshot.  Uploads complete when told to.
    """

    def __init__(self):
        self.uploads = []

    async def upload(self, name, get):
        d = Deferred()
        self.uploads.append((name, get().read(), d))
        await d

    async def prune(self, predicate):
        pass

    async def entries(self):
        return {"snapshot": None}

    def replica(self):
        async def lister():
            return {"snapshot": type("E", (), {"kind": "filenode", "size": 1})()}

        return Replica(self.upload, self.prune, lister)


class App(ConnectionHaver):
    def __init__(self, connection):
        self._connection = connection

    @with_cursor
    def txn(self, cursor, fn):
        return fn(cursor)


def insert(n, text="x"):
    return ("INSERT INTO [app] ([id], [text]) VALUES (?, ?)", (n, text))


# The statements a transaction can be made of, by what they do.  Each is a
# function (cursor, app, n) -> [(statement, arguments)] performed.


def one(cursor, app, n):
    cursor.execute(*insert(n))
    return [insert(n)]


def important(cursor, app, n):
    with cursor.important():
        cursor.execute(*insert(n, "important"))
    return [insert(n, "important")]


def many(cursor, app, n):
    sql = insert(n)[0]
    rows = [(n, "a"), (n + 1, None)]
    cursor.executemany(sql, rows)
    return [(sql, r) for r in rows]


def many_iter(cursor, app, n):
    sql = insert(n)[0]
    rows = [(n, "b"), (n + 1, b"\x00")]
    cursor.executemany(sql, iter(rows))
    return [(sql, r) for r in rows]


def none(cursor, app, n):
    cursor.executemany(insert(n)[0], [])
    return []


def update(cursor, app, n):
    st = ("UPDATE [app] SET [text] = [text] || ?", ("!",))
    cursor.execute(*st)
    return [st]


def select(cursor, app, n):
    cursor.execute("SELECT [id] FROM [app] WHERE [id] < ?", (n,))
    cursor.fetchall()
    return []


def ddl(cursor, app, n):
    st = ("\n-- a comment\nCREATE TABLE [t%d] ([a] INTEGER)\n" % n, ())
    cursor.execute(*st)
    return [st]


def replace(cursor, app, n):
    st = ("REPLACE INTO [app] ([id], [text]) VALUES (?, ?)", (1, "r%d" % n))
    cursor.execute(*st)
    return [st]


def delete(cursor, app, n):
    st = ("delete from [app] where [id] = ?", (1,))
    cursor.execute(*st)
    return [st]


def cte(cursor, app, n):
    st = ("WITH [w] AS (SELECT ? AS [a]) INSERT INTO [app] ([id]) SELECT [a] FROM [w]", (n,))
    cursor.execute(*st)
    return [st]


def clash(cursor, app, n):
    """A failing statement, survived."""
    try:
        cursor.execute("INSERT INTO [app] ([id], [text]) VALUES (0, ?)", ("dup",))
    except sqlite3.IntegrityError:
        return []
    raise Violation("a duplicate key was accepted")


def clash_fatal(cursor, app, n):
    cursor.execute("INSERT INTO [app] ([id], [text]) VALUES (0, ?)", ("dup",))
    raise Violation("a duplicate key was accepted")


def give_up(cursor, app, n):
    raise Give_up()


def give_up_important(cursor, app, n):
    with cursor.important():
        raise Give_up()


def odd(cursor, app, n):
    """A value SQLite takes but events cannot represent."""
    cursor.execute(insert(n)[0], (n, memoryview(b"odd")))
    return [None]


def nested(cursor, app, n):
    """Another transaction cannot begin now, and does no harm."""
    try:
        app.txn(lambda c: one(c, app, n))
    except sqlite3.OperationalError:
        return []
    raise Violation("a nested transaction was accepted")


PLAIN = [one, important, many, many_iter, none, update, select, ddl, replace, delete, cte]
ROUGH = [clash, nested, clash_fatal, give_up, give_up_important, odd]


def committed_dump(changes):
    """What the application tables hold after some changes."""
    conn = sqlite3.connect(":memory:", isolation_level=None)
    prepare(conn)
    for st, args in changes:
        conn.execute(st, args)
    out = zk.dump(conn)
    conn.close()
    return out


def prepare(conn):
    conn.execute("CREATE TABLE [app] ([id] INTEGER PRIMARY KEY, [text] TEXT)")
    conn.execute("INSERT INTO [app] VALUES (0, 'zero'), (1, 'one')")


NOT_APP = None


def app_tables(path):
    global NOT_APP
    if NOT_APP is None:
        NOT_APP = frozenset(zk.dump(zk.template_db())) | {"event-stream", "sqlite_sequence"}
    return {k: v for k, v in zk.dump(path).items() if k not in NOT_APP}


def durable_events(path):
    conn = sqlite3.connect(path)
    try:
        return get_events(conn)
    finally:
        conn.close()


def make_transactions(b):
    def scenario(ch):
        path = zk.new_db()
        raw = sqlite3.connect(path, isolation_level=None)
        prepare(raw)
        raw.close()
        grid = Grid()
        left = {"crash": b["crashes"], "fault": b["faults"]}
        quiet = [False]

        def hook(kind, sql):
            if quiet[0]:
                return
            if kind == "committed":
                if left["crash"] and ch.choose(2, "crash after commit", ["-", "yes"]):
                    left["crash"] -= 1
                    raise zk.Crash()
                return
            opts = ["-"]
            if left["crash"]:
                opts.append("crash")
            if left["fault"]:
                opts.append("error")
            what = opts[ch.choose(len(opts), "at %s %s" % (kind, " ".join(sql.split())[:40]), opts)]
            if what == "crash":
                left["crash"] -= 1
                raise zk.Crash()
            if what == "error":
                left["fault"] -= 1
                raise sqlite3.OperationalError("disk I/O error")

        class Proc:
            def __init__(self, replicating):
                self.conn = zk.open_conn(path)
                self.conn.hook = hook
                self.wrapped = with_replication(self.conn, replicating)
                quiet[0] = True
                zk_store_init(self.wrapped)
                self.app = App(self.wrapped)
                self.service = replication_service(self.wrapped, grid.replica(), Never())
                if replicating:
                    self.service.startService()
                quiet[0] = False

        # (statement, args) of every recorded change, in order, and how many of
        # them have been uploaded and pruned.
        applied = []
        recorded = []
        pruned = [0]
        highest = [0]
        replicating = not b.get("off_first")
        proc = Proc(replicating)

        def compare(path, in_txn=None):
            """
            :param in_txn: changes of a transaction which may or may not have
                been committed by a crashing process.
            """
            dump = app_tables(path)
            stream = durable_events(path)
            got = [(c.statement, tuple(c.arguments)) for c in stream.changes]
            base = committed_dump(applied)
            options = []
            if dump == base:
                options.append([])
            if in_txn and dump == committed_dump(applied + in_txn):
                options.append(in_txn)
            check(options, "the database is not at a transaction boundary", dump=dump, base=base, in_txn=in_txn)
            for o in options:
                want = recorded[pruned[0]:] + (o if replicating else [])
                if got == want or any(
                    got == want[n:] for n in pending_prunes()
                ):
                    applied.extend(o)
                    if replicating:
                        recorded.extend(o)
                    break
            else:
                raise Violation(
                    "the recorded events are not the committed changes",
                    {"events": got, "committed": recorded[pruned[0]:] + (options[-1] if replicating else [])},
                )
            seqs = [c.sequence for c in stream.changes]
            check(seqs == sorted(set(seqs)), "sequence numbers do not increase", seqs=seqs)
            if seqs:
                check(max(seqs) >= highest[0] or highest_uploaded() >= highest[0],
                      "a sequence number was used again", seqs=seqs, highest=highest[0])
                highest[0] = max(highest[0], max(seqs))

        def highest_uploaded():
            return highest[0] if pruned[0] else 0

        def pending_prunes():
            return ()

        ids = [10]
        pool = PLAIN + ROUGH if not b.get("plain") else PLAIN
        if b.get("pool"):
            pool = [globals()[n] for n in b["pool"]]
        for i, limit in enumerate(b["transactions"]):
            todo = []
            done = []
            if not replicating and ch.choose(2, "start replication", ["-", "yes"]):
                proc.service.startService()
                replicating = True
            length = ch.choose(limit + 1, "statements")

            def body(cursor):
                for _ in range(length):
                    st = ch.pick(pool, "do")
                    ids[0] += 2
                    todo.extend(st(cursor, proc.app, ids[0]))

            try:
                try:
                    proc.app.txn(body)
                except zk.Crash:
                    proc.conn.kill()
                    compare(path, [t for t in todo if t is not None])
                    proc = Proc(replicating)
                    ch.note("restart")
                    outcome = "crash"
                else:
                    outcome = "commit"
                    check(None not in todo, "an unrepresentable change was committed silently")
                    applied.extend(todo)
                    if replicating:
                        recorded.extend(todo)
            except (Give_up, sqlite3.Error, AssertionError) as e:
                outcome = "rollback (%s)" % type(e).__name__
                check(not proc.conn.in_transaction, "the transaction is still open after it failed")
            if outcome != "crash":
                compare(path)
                if grid.uploads and ch.choose(2, "finish upload", ["-", "yes"]):
                    name, data, d = grid.uploads.pop(0)
                    grid.uploads[:] = []
                    # Only what was uploaded may be pruned.
                    import io

                    up = EventStream.from_bytes(io.BytesIO(data)).changes
                    got = [(c.statement, tuple(c.arguments)) for c in up]
                    check(
                        got == recorded[pruned[0]: pruned[0] + len(got)],
                        "the uploaded events are not the committed changes",
                        uploaded=got,
                        committed=recorded[pruned[0]:],
                    )
                    try:
                        d.callback(None)
                    except zk.Crash:
                        pass
                    if proc.conn.dead:
                        proc.conn.kill()
                    now = len(durable_events(path).changes)
                    left_over = recorded[pruned[0] + len(got):]
                    if now == len(left_over):
                        pruned[0] += len(got)
                    compare(path)
                    if proc.conn.dead:
                        proc = Proc(replicating)
                        outcome = "crash"
            else:
                grid.uploads[:] = []
            ch.note(outcome)
            ch.visit(lambda: (
                i, replicating, outcome == "crash", left, pruned[0], applied, recorded, len(grid.uploads),
                zk.fingerprint(proc.wrapped), zk.fingerprint(proc.service),
            ))
        quiet[0] = True
        proc.conn.close()
        zk.remove(path)
        return "events=%d" % len(recorded)

    return scenario


def zk_store_init(wrapped):
    from _zkapauthorizer.model import initialize_database

    initialize_database(wrapped)


# ------------------------------------------------------------------ the store


def make_store_ops(b):
    """
    Operations of the real store, with a crash at every statement: the initial
    state plus the events is always the durable state.
    """
    v1 = zk.voucher_number(1)

    def scenario(ch):
        path = zk.new_db()
        left = {"crash": b["crashes"], "fault": b["faults"]}
        quiet = [True]

        def hook(kind, sql):
            if quiet[0]:
                return
            opts = ["-"]
            if left["crash"]:
                opts.append("crash")
            if left["fault"] and kind != "committed":
                opts.append("error")
            what = opts[ch.choose(len(opts), "at %s %s" % (kind, " ".join(sql.split())[:40]), opts)]
            if what == "crash":
                left["crash"] -= 1
                raise zk.Crash()
            if what == "error":
                left["fault"] -= 1
                raise sqlite3.OperationalError("disk I/O error")

        grid = Grid()

        class Proc:
            def __init__(self):
                quiet[0] = True
                self.conn = zk.open_conn(path)
                self.conn.hook = hook
                self.wrapped = with_replication(self.conn, True)
                from _zkapauthorizer.model import VoucherStore

                self.store = VoucherStore.from_connection(2**20, lambda: zk.NOW, self.wrapped)
                self.service = replication_service(self.wrapped, grid.replica(), Never())
                self.service.startService()
                self.taken = []
                self.lm = None
                quiet[0] = False

        proc = Proc()
        base = sqlite3.connect(path)
        initial = list(base.iterdump())
        base.close()

        def compare():
            want = zk.dump(path, skip=("event-stream", "sqlite_sequence"))
            conn = sqlite3.connect(":memory:", isolation_level=None)
            from _zkapauthorizer.model import initialize_database

            initialize_database(with_replication(conn, False))
            cur = conn.cursor()
            cur.execute("BEGIN")
            recover_snapshot(iter(initial), cur)
            stream = durable_events(path)
            try:
                recover_event_stream(stream, cur)
            except sqlite3.Error as e:
                raise Violation(
                    "the recorded events cannot be replayed: %r" % (e,),
                    {"events": [(c.statement, c.arguments) for c in stream.changes]},
                )
            cur.execute("COMMIT")
            got = zk.dump(conn, skip=("event-stream", "sqlite_sequence"))
            conn.close()
            check(
                got == want,
                "replaying the recorded events does not give the durable state",
                durable=want,
                replayed=got,
                events=[(c.statement, c.arguments) for c in stream.changes],
            )

        state = {"counter": 0}
        rnd = lambda c: [zk.random_token("%d/%d" % (c, i)) for i in range(2)]
        ub = lambda c: [zk.unblinded_token("%d/%d" % (c, i)) for i in range(2)]

        def op_add():
            c = state["counter"]
            proc.store.add(v1, 4, c, lambda: rnd(c))

        def op_insert():
            c = state["counter"]
            proc.store.insert_unblinded_tokens_for_voucher(v1, "key", ub(c), completed=c == 1, spendable=True)
            state["counter"] = min(c + 1, 1)

        def op_double():
            proc.store.mark_voucher_double_spent(v1)

        def op_take():
            proc.taken.append(proc.store.get_unblinded_tokens(1))

        def op_spend():
            proc.store.discard_unblinded_tokens(proc.taken.pop(0))

        def op_invalid():
            proc.store.invalidate_unblinded_tokens("why", proc.taken.pop(0))

        def op_reset():
            proc.store.reset_unblinded_tokens(proc.taken.pop(0))

        def op_lm_start():
            proc.lm = proc.store.start_lease_maintenance()

        def op_lm_observe():
            proc.lm.observe([1, 2**20 + 1])

        def op_lm_finish():
            lm, proc.lm = proc.lm, None
            lm.finish()

        for i in range(b["ops"]):
            ops = [op_add, op_insert, op_take]
            if state["counter"]:
                ops.append(op_double)
            if proc.taken:
                ops += [op_spend, op_invalid, op_reset]
            if proc.lm is None:
                ops.append(op_lm_start)
            else:
                ops += [op_lm_observe, op_lm_finish]
            ops = [o for o in ops if o.__name__[3:] in b["which"]]
            op = ch.pick([o.__name__[3:] for o in ops], "op")
            op = [o for o in ops if o.__name__[3:] == op][0]
            try:
                op()
                out = "ok"
            except zk.Crash:
                out = "crash"
                proc.conn.kill()
            except Exception as e:
                out = type(e).__name__
            ch.note(out)
            quiet[0] = True
            if not ch.replaying:
                compare()
            if out == "crash":
                proc = Proc()
                if not ch.replaying:
                    compare()
            quiet[0] = False
            ch.visit(lambda: (
                i, left, state, zk.dump(path, skip=("event-stream", "sqlite_sequence")),
                zk.dump(proc.conn, temp=True, skip=("event-stream", "sqlite_sequence")),
                [t.unblinded_token for g in proc.taken for t in g], zk.fingerprint(proc.lm),
                zk.fingerprint(proc.wrapped),
            ) if b.get("merge") else (ch.trace,))
        quiet[0] = True
        proc.conn.close()
        zk.remove(path)
        return "done"

    return scenario


CHECK = Check(
    "P02",
    "model_checking",
    "all sequences of transactions over the statement alphabet, and of store operations, "
    "with a crash or error at every statement and commit; each explored on the real connection wrapper and service",
    [
        "SQLite commits atomically and rolls back an open transaction on restart",
        "an executemany which fails half way is followed by a rollback, as everywhere in this program",
    ],
    [
        Scenario(
            "transactions",
            make_transactions,
            quick=dict(transactions=[2, 1], crashes=0, faults=0),
            thorough=dict(transactions=[2, 2, 1], crashes=0, faults=0),
        ),
        Scenario(
            "transactions-crash",
            make_transactions,
            quick=dict(transactions=[2, 1], crashes=1, faults=1,
                       pool=["one", "many", "important", "ddl", "give_up"]),
            thorough=dict(transactions=[2, 2, 1], crashes=1, faults=1,
                          pool=["one", "many", "important", "ddl", "give_up"]),
        ),
        Scenario(
            "replication-started-later",
            make_transactions,
            quick=dict(transactions=[1, 1, 1], crashes=0, faults=0, off_first=True,
                       pool=["one", "important", "many_iter", "give_up", "update"]),
            thorough=dict(transactions=[1, 1, 1, 1], crashes=1, faults=0, off_first=True,
                       pool=["one", "important", "many_iter", "give_up", "update"]),
        ),
        Scenario(
            "store-operations",
            make_store_ops,
            quick=dict(ops=5, crashes=1, faults=0,
                       which=["add", "insert", "double", "take", "spend", "invalid", "reset"]),
            thorough=dict(ops=6, crashes=1, faults=1,
                       which=["add", "insert", "double", "take", "spend", "invalid", "reset"]),
        ),
        Scenario(
            "store-lease-maintenance",
            make_store_ops,
            quick=dict(ops=4, crashes=1, faults=1, which=["add", "lm_start", "lm_observe", "lm_finish"]),
            thorough=dict(ops=7, crashes=1, faults=1, which=["add", "lm_start", "lm_observe", "lm_finish"]),
        ),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
