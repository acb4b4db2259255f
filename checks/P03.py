"""
P03: snapshots and event streams round-trip exactly.
"""

import datetime
import io
import sqlite3

from _zkapauthorizer.model import initialize_database
from _zkapauthorizer.recover import (
    recover_event_stream,
    recover_snapshot,
    statements_from_snapshot,
)
from _zkapauthorizer.replicate import (
    EventStream,
    Replica,
    get_events,
    replication_service,
    snapshot,
    with_replication,
)

from mc import zk
from mc.core import Violation, check
from mc.runner import Check, Scenario

UTC = datetime.timezone.utc

INTS = [0, 1, -1, 255, 2**31, -(2**31), 2**53 + 1, 2**63 - 1, -(2**63), True, False]
FLOATS = [0.0, -0.0, 0.1, 1.5, -1e308, 5e-324, 1 / 3, 1e15, 123456789.123456789, 1e22, 2.0**63]
TEXTS = [
    "", "a", "'", "''", "it's", '"', "\\", ";", "a;b--c", "--", "/* */", "\n", "a\r\nb", "\t",
    "?", ":x", "$1", "%s", "NULL", "null", "0", "1", "-1", "1e3", "0x10", " 1 ", "X'00'", "é", "e\u0301",
    "\U0001f511", "\uffff", "\u2028", "BEGIN TRANSACTION;", "COMMIT;", "CREATE TABLE x (a)", "2024-01-02T03:04:05",
    "x" * 5000, "'" * 300,
]
BLOBS = [b"", b"\x00", b"\x00\x01", b"'", b"abc", bytes(range(256)), b"\xff" * 3]
VALUES = [None] + INTS + FLOATS + TEXTS + BLOBS
# sqlite3's own dump writes negative zero as 0.0.
SNAPSHOT_VALUES = [v for v in VALUES if repr(v) != "-0.0"]
DATES = [
    datetime.datetime(2024, 1, 2, 3, 4, 5, tzinfo=UTC),
    datetime.datetime(2024, 1, 2, 3, 4, 5, 6, tzinfo=UTC),
    datetime.datetime(2024, 1, 2, 3, 4, 5, 600000, tzinfo=UTC),
    datetime.datetime(1, 1, 1, tzinfo=UTC),
    datetime.datetime(9999, 12, 31, 23, 59, 59, 999999, tzinfo=UTC),
    datetime.datetime(2024, 1, 2, 3, 4, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=5, minutes=30))),
    datetime.datetime(2024, 1, 2, 3, 4, 5, tzinfo=datetime.timezone(-datetime.timedelta(hours=3))),
]

COLUMNS = [
    "[c] text", "[c] integer", "[c] real", "[c] blob", "[c] num", "[c]", "[c] BOOL",
    "[c] text PRIMARY KEY", "[c] integer PRIMARY KEY", "[c] INTEGER PRIMARY KEY AUTOINCREMENT",
    "[c] text NOT NULL DEFAULT 'x'", "[c] integer NOT NULL DEFAULT 7", "[c] text UNIQUE",
    "[c] text DEFAULT NULL, [d] DEFAULT X'80'", "[c] text PRIMARY KEY) WITHOUT ROWID",
    "[c] text COLLATE NOCASE", "[c] text CHECK (1)",
]

NAMES = ["[t]", "[a-b]", "[a b]", '"it[s"', "[select]", '"q""q"', "[é]", "[1]", "[a.b]", "[sqlitex]", "[a;b]"]


def contents(conn):
    """Everything: schema, values with their types, in a canonical form."""
    cur = sqlite3.Connection.cursor(conn)
    cur.execute("SELECT type, name, tbl_name, sql FROM sqlite_master ORDER BY type, name")
    # The bookkeeping table of AUTOINCREMENT appears with the first such table and
    # never disappears.
    master = [r for r in cur.fetchall() if r[1] != "sqlite_sequence"]
    out = {"sqlite_sequence": []}
    cur.execute("SELECT name FROM sqlite_master WHERE type = 'table'")
    for (name,) in cur.fetchall():
        q = '"%s"' % name.replace('"', '""')
        cur.execute("PRAGMA table_info(%s)" % q)
        cols = [r[1] for r in cur.fetchall()]
        exprs = []
        for c in cols:
            c = '"%s"' % c.replace('"', '""')
            exprs += [c, "typeof(%s)" % c]
        cur.execute("SELECT %s FROM %s" % (", ".join(exprs), q))
        out[name] = sorted(map(repr, cur.fetchall()))
    cur.close()
    return master, out


def target():
    """An empty store as recovery finds it."""
    conn = zk.open_conn(zk.new_db())
    initialize_database(with_replication(conn, False))
    return conn


def finish(conn):
    cur = sqlite3.Connection.cursor(conn)
    cur.execute("PRAGMA database_list")
    path = cur.fetchall()[0][2]
    cur.close()
    conn.close()
    zk.remove(path)


def roundtrip(source):
    """Snapshot the source with the real code and recover it."""
    try:
        data = snapshot(with_replication(source, False))
    except Exception as e:
        raise Violation("a snapshot cannot be made: %r" % (e,))
    conn = target()
    cur = with_replication(conn, False).cursor()
    cur.execute("BEGIN IMMEDIATE TRANSACTION")
    try:
        recover_snapshot(statements_from_snapshot(lambda: io.BytesIO(data)), cur)
        sqlite3.Connection.commit(conn)
    except Exception as e:
        raise Violation("a snapshot cannot be recovered: %r" % (e,), {"data": data[:2000]})
    want, got = contents(source), contents(conn)
    finish(conn)
    check(got[0] == want[0], "the recovered schema differs", source=want[0], recovered=got[0])
    for t in want[1]:
        check(
            got[1][t] == want[1][t],
            "recovered values differ",
            table=t,
            source=[r for r in want[1][t] if r not in got[1][t]],
            recovered=[r for r in got[1][t] if r not in want[1][t]],
        )


def blank():
    conn = sqlite3.connect(":memory:", isolation_level=None)
    return conn


def make_values(b):
    def scenario(ch):
        column = ch.pick(COLUMNS, "column")
        name = ch.pick(NAMES, "name") if b["names"] else "[t]"
        value = ch.pick(SNAPSHOT_VALUES + b["dates"] * DATES, "value")
        conn = blank()
        conn.execute("CREATE TABLE %s (%s%s" % (name, column, "" if ")" in column[-20:] and "ROWID" in column else ")"))
        try:
            conn.execute("INSERT INTO %s ([c]) VALUES (?)" % name, (value,))
        except sqlite3.Error as e:
            ch.note("not storable")
        roundtrip(conn)
        conn.close()
        return "ok"

    return scenario


SCHEMAS = {
    "forward reference": [
        "CREATE TABLE [a] ([x] text, FOREIGN KEY([x]) REFERENCES [z]([y]))",
        "CREATE TABLE [z] ([y] text PRIMARY KEY)",
        "INSERT INTO [z] VALUES ('1'), ('2')",
        "INSERT INTO [a] VALUES ('2'), ('1'), (NULL)",
    ],
    "self reference": [
        "CREATE TABLE [n] ([id] integer PRIMARY KEY, [up] integer REFERENCES [n]([id]))",
        "INSERT INTO [n] VALUES (1, 3), (2, 2), (3, NULL)",
    ],
    "autoincrement past the rows": [
        "CREATE TABLE [s] ([id] INTEGER PRIMARY KEY AUTOINCREMENT, [t] text)",
        "INSERT INTO [s] ([t]) VALUES ('a'), ('b'), ('c')",
        "DELETE FROM [s] WHERE [id] > 1",
    ],
    "autoincrement emptied": [
        "CREATE TABLE [s] ([id] INTEGER PRIMARY KEY AUTOINCREMENT, [t] text)",
        "INSERT INTO [s] ([t]) VALUES ('a'), ('b'), ('c')",
        "DELETE FROM [s]",
    ],
    "two autoincrements": [
        "CREATE TABLE [s] ([id] INTEGER PRIMARY KEY AUTOINCREMENT)",
        "CREATE TABLE [r] ([id] INTEGER PRIMARY KEY AUTOINCREMENT)",
        "INSERT INTO [s] VALUES (7)",
        "INSERT INTO [r] VALUES (9223372036854775807)",
    ],
    "index": [
        "CREATE TABLE [s] ([a] text, [b] text)",
        "CREATE UNIQUE INDEX [i] ON [s] ([a], [b])",
        "INSERT INTO [s] VALUES ('a', 'b'), ('a', 'c')",
    ],
    "view": [
        "CREATE TABLE [s] ([a] text)",
        "CREATE VIEW [v] AS SELECT [a] FROM [s]",
        "INSERT INTO [s] VALUES ('a')",
    ],
    "trigger": [
        "CREATE TABLE [s] ([a] integer)",
        "CREATE TABLE [log] ([a] integer)",
        "INSERT INTO [s] VALUES (1), (2)",
        "CREATE TRIGGER [g] AFTER INSERT ON [s] BEGIN INSERT INTO [log] VALUES (new.[a]); END",
    ],
    "altered": [
        "CREATE TABLE [s] ([a] text)",
        "INSERT INTO [s] VALUES ('x')",
        "-- comment\nALTER TABLE [s] ADD COLUMN [b] integer NOT NULL DEFAULT 32768",
        "INSERT INTO [s] VALUES ('y', 1)",
    ],
    "created from a query": [
        "CREATE TABLE IF NOT EXISTS [version] AS SELECT 0 AS [version]",
        "UPDATE [version] SET [version] = [version] + 1",
    ],
    "named like the target's": [
        "CREATE TABLE [vouchers] ([other] integer)",
        "INSERT INTO [vouchers] VALUES (1)",
        "CREATE TABLE [redemption-groups] ([a] text)",
    ],
    "comments": [
        "CREATE TABLE [s] ( -- it's; a \"comment\"\n [a] text, /* ; ' */ [b] text DEFAULT 'it''s' )",
        "INSERT INTO [s] ([a]) VALUES ('z')",
    ],
    "empty": [],
    "empty tables": ["CREATE TABLE [s] ([a] text)", "CREATE TABLE [r] ([a] text)"],
    "lower case": ["create table [s] ([a] text)", "insert into [s] values ('1')"],
    "case and name": ['CREATE TABLE "CREATE TABLE" ("COMMIT;" text)', "INSERT INTO \"CREATE TABLE\" VALUES ('COMMIT;')"],
}


def make_schemas(b):
    def scenario(ch):
        first = ch.pick(sorted(SCHEMAS), "schema")
        second = ch.pick([None] + sorted(SCHEMAS), "and")
        conn = blank()
        for st in SCHEMAS[first]:
            conn.execute(st)
        if second is not None:
            for st in SCHEMAS[second]:
                try:
                    conn.execute(st)
                except sqlite3.Error:
                    pass
        roundtrip(conn)
        conn.close()
        return "ok"

    return scenario


def make_store(b):
    """
    The store's own tables, every column with every value its type admits.
    """

    def scenario(ch):
        path = zk.new_db()
        conn = sqlite3.connect(path, isolation_level=None)
        if ch.choose(2, "rows", ["one", "with others"]):
            conn.execute("INSERT INTO [vouchers] ([number], [created]) VALUES ('v', 'now')")
            conn.execute("INSERT INTO [tokens] ([text], [voucher]) VALUES ('t', 'v')")
            conn.execute("INSERT INTO [redemption-groups] ([voucher], [spendable]) VALUES ('v', 1)")
            conn.execute("INSERT INTO [unblinded-tokens] ([token]) VALUES ('u')")
            conn.execute("INSERT INTO [event-stream] ([statement]) VALUES ('s')")
            conn.execute("DELETE FROM [event-stream]")
        tables = [
            r[0] for r in conn.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' ORDER BY name")
        ]
        table = ch.pick(tables, "table")
        cols = [r[1] for r in conn.execute("PRAGMA table_info([%s])" % table)]
        col = ch.pick(cols, "column")
        value = ch.pick(SNAPSHOT_VALUES, "value")
        try:
            conn.execute("INSERT INTO [%s] ([%s]) VALUES (?)" % (table, col), (value,))
        except sqlite3.Error:
            ch.note("not storable")
        if (table, col) == ("tokens", "voucher") and conn.execute("PRAGMA foreign_key_check").fetchall():
            conn.execute("INSERT OR IGNORE INTO [vouchers] ([number]) SELECT [voucher] FROM [tokens] WHERE [voucher] IS NOT NULL")
        roundtrip(conn)
        conn.close()
        zk.remove(path)
        return "ok"

    return scenario


# ----------------------------------------------------------------- events


class Later:
    def should_snapshot(self, *a):
        return False


def quiet_replica():
    from twisted.internet.defer import Deferred

    async def never(*a):
        await Deferred()

    async def lister():
        return {"snapshot": None}

    return Replica(never, never, lister)


SHAPES = [
    ("INSERT INTO [t] ([a], [b]) VALUES (?, ?)", lambda v: (v, 1)),
    ("INSERT INTO [t] ([a], [b]) VALUES (?2, ?1)", lambda v: (2, v)),
    ("INSERT INTO [t] ([n], [r], [a]) VALUES (?, ?, ?)", lambda v: (v, v, v)),
    ("UPDATE [t] SET [b] = ? WHERE [rowid] = ?", lambda v: (v, 1)),
    ("UPDATE [t] SET [a] = quote(?) || 'it''s;' ", lambda v: (v,)),
    ("DELETE FROM [t] WHERE [a] IS ?", lambda v: (v,)),
    ("INSERT INTO [t] ([a]) SELECT ? FROM [t]", lambda v: (v,)),
    ("\n   -- a leading comment; it's odd\n   REPLACE INTO [t] ([rowid], [a]) VALUES (1, ?)\n", lambda v: (v,)),
]


def events_roundtrip(run, ch):
    """
    Execute ``run(cursor)`` on a replicating connection and replay what it recorded.
    """
    path, copy = zk.new_db(), zk.new_db()
    for p in (path, copy):
        c = sqlite3.connect(p, isolation_level=None)
        c.execute("CREATE TABLE [t] ([a], [b] text, [n] num, [r] real)")
        c.execute("INSERT INTO [t] VALUES (1, 'one', 1, 1.0), ('x', NULL, NULL, NULL), (NULL, 'it''s', 0, 0)")
        c.close()
    conn = zk.open_conn(path)
    wrapped = with_replication(conn, False)
    initialize_database(wrapped)
    svc = replication_service(wrapped, quiet_replica(), Later())
    svc.startService()
    refused = None
    try:
        cur = wrapped.cursor()
        cur.execute("BEGIN IMMEDIATE TRANSACTION")
        with wrapped:
            run(cur)
    except (sqlite3.Error, OverflowError, ValueError, AssertionError, UnicodeError, TypeError) as e:
        refused = e
    except Exception as e:
        # the encoder's own
        refused = e
    stream = get_events(conn)
    if refused is not None:
        ch.note("refused")
        check(not stream.changes, "a refused change was recorded", error=refused)
    data = stream.to_bytes().read()
    back = EventStream.from_bytes(io.BytesIO(data))
    shape = lambda s: [
        (c.sequence, c.statement, [(type(a).__name__, repr(a)) for a in c.arguments], bool(c.important))
        for c in s.changes
    ]
    check(shape(back) == shape(stream), "the event stream changed", before=shape(stream), after=shape(back))
    check(back.highest_sequence() == stream.highest_sequence(), "the highest sequence number changed")
    two = zk.open_conn(copy)
    initialize_database(with_replication(two, False))
    cur = with_replication(two, False).cursor()
    cur.execute("BEGIN IMMEDIATE TRANSACTION")
    try:
        recover_event_stream(back, cur)
    except Exception as e:
        raise Violation("recorded events cannot be replayed: %r" % (e,), {"events": shape(back)})
    sqlite3.Connection.commit(two)
    want, got = contents(conn)[1], contents(two)[1]
    check(
        got["t"] == want["t"],
        "replay gives other values",
        executed=want["t"],
        replayed=got["t"],
        events=shape(back),
    )
    conn.close()
    two.close()
    zk.remove(path)
    zk.remove(copy)
    return "refused" if refused is not None else "recorded"


ODD = [float("inf"), float("-inf"), float("nan"), "a\x00b", "\x00", 2**63, -(2**63) - 1, "\ud800",
       datetime.datetime(2024, 1, 2, 3, 4, 5)]


def make_events(b):
    def scenario(ch):
        sql, args = SHAPES[ch.choose(len(SHAPES), "shape", [s for s, _ in SHAPES])]
        value = ch.pick(VALUES + DATES + ODD, "value")
        how = ch.pick(["execute", "executemany", "important"], "how")

        def run(cur):
            if how == "execute":
                cur.execute(sql, args(value))
            elif how == "executemany":
                cur.executemany(sql, [args(value), args("next"), args(value)])
            else:
                with cur.important():
                    cur.execute(sql, args(value))

        return events_roundtrip(run, ch)

    return scenario


def make_event_sequences(b):
    values = [None, 2**63 - 1, "it's", b"\x00'", 0.1, DATES[1]]

    def scenario(ch):
        steps = []
        for i in range(ch.choose(b["length"], "length") + 1):
            sql, args = SHAPES[ch.choose(len(SHAPES), "shape", [s for s, _ in SHAPES])]
            steps.append((sql, args(ch.pick(values[: b["values"]], "value"))))

        def run(cur):
            for sql, args in steps:
                cur.execute(sql, args)

        return events_roundtrip(run, ch)

    return scenario


# ----------------------------------------------------------------- damage


def make_damage(b):
    """
    A truncated or mistyped document is refused, never taken for another one.
    """
    import cbor2

    conn = blank()
    for st in SCHEMAS["forward reference"]:
        conn.execute(st)
    snap = snapshot(with_replication(conn, False))
    conn.close()
    from _zkapauthorizer.replicate import Change

    events = EventStream(
        [Change(3, "INSERT INTO [t] VALUES (?)", ("it's",), True), Change(4, "DELETE FROM [t]", (), False)]
    ).to_bytes().read()

    docs = []
    for v in (None, 0, 2, "1", 1.5, [1], "absent"):
        for st in ([], ["CREATE TABLE [x] ([a])"], "CREATE", None, {}, [1], [b"x"], [None], ["CREATE TABLE [x] ([a])", 7], "absent"):
            d = {"version": v, "statements": st}
            d = {k: x for k, x in d.items() if x != "absent"}
            docs.append(d)
    for st in ("CREATE", None, {}, [1], [b"x"], [None], ["CREATE TABLE [x] ([a])", 7], "absent"):
        d = {"version": 1, "statements": st}
        docs.append({k: x for k, x in d.items() if x != "absent"})

    def scenario(ch):
        what = ch.pick(["snapshot", "snapshot document", "events"], "what")
        if what == "snapshot document":
            d = docs[ch.choose(len(docs), "document", list(map(repr, docs)))]
            try:
                r = list(statements_from_snapshot(lambda: io.BytesIO(cbor2.dumps(d))))
            except Exception:
                return "refused"
            raise Violation("a bad snapshot was accepted", {"document": d, "statements": r})
        data = snap if what == "snapshot" else events
        n = ch.choose(len(data), "length")
        try:
            if what == "snapshot":
                r = list(statements_from_snapshot(lambda: io.BytesIO(data[:n])))
            else:
                r = EventStream.from_bytes(io.BytesIO(data[:n]))
        except Exception:
            return "refused"
        raise Violation("a truncated %s was accepted" % what, {"length": n, "got": r})

    return scenario


CHECK = Check(
    "P03",
    "exploration",
    "every value of the table in every column form, every schema form and pair of them, every column of the store, "
    "every statement shape with every value, every truncation",
    [
        "texts holding the NUL character are excluded from snapshots (sqlite3's dump cuts them; no text of the store can hold one)",
        "infinities, NaN and negative zero are excluded from snapshots (the store holds no floating point numbers)",
    ],
    [
        Scenario("snapshot-values", make_values, dict(names=0, dates=1), dict(names=1, dates=1)),
        Scenario("snapshot-schemas", make_schemas),
        Scenario("snapshot-store", make_store),
        Scenario("event-values", make_events),
        Scenario("event-sequences", make_event_sequences, dict(length=2, values=3), dict(length=3, values=4)),
        Scenario("damage", make_damage),
    ],
)

if __name__ == "__main__":
    raise SystemExit(CHECK.main())
