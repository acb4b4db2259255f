"""
The schema changes of the releases up to schema version 9, as they were: what makes
the databases found in the field.  Frozen, on purpose not read from the code.
"""

STEPS = [
    # 0 -> 1
    [
        """CREATE TABLE [vouchers] (
        [number] text,
        [created] text,
        [state] text DEFAULT "pending",
        [finished] text DEFAULT NULL,
        [token-count] num DEFAULT NULL,
        PRIMARY KEY([number])
        )""",
        """CREATE TABLE [tokens] (
        [text] text,
        [voucher] text,
        PRIMARY KEY([text])
        FOREIGN KEY([voucher]) REFERENCES [vouchers]([number])
        )""",
        """CREATE TABLE [unblinded-tokens] (
        [token] text,
        PRIMARY KEY([token])
        )""",
        """CREATE TABLE [lease-maintenance-spending] (
        [id] integer,
        [started] text,
        [finished] text,
        [count] integer,
        PRIMARY KEY([id])
        )""",
    ],
    # 1 -> 2
    [
        """ALTER TABLE [vouchers] ADD COLUMN [public-key] text""",
    ],
    # 2 -> 3
    [
        """ALTER TABLE [vouchers] ADD COLUMN [counter] integer DEFAULT 0""",
    ],
    # 3 -> 4
    [
        """ALTER TABLE [tokens] ADD COLUMN [counter] integer NOT NULL DEFAULT 0""",
        """ALTER TABLE [vouchers] ADD COLUMN [expected-tokens] integer NOT NULL DEFAULT 32768""",
    ],
    # 4 -> 5
    [
        """CREATE TABLE [invalid-unblinded-tokens] (
        [token] text,
        [reason] text,
        PRIMARY KEY([token])
        )""",
    ],
    # 5 -> 6
    [
        """CREATE TABLE [redemption-groups] (
        [rowid] INTEGER PRIMARY KEY,
        [voucher] text,
        [spendable] integer,
        [public-key] text
        )""",
        """INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable])
        SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed" """,
        """ALTER TABLE [vouchers] ADD COLUMN [sequestered-count] integer NOT NULL DEFAULT 0""",
        """ALTER TABLE [unblinded-tokens] ADD COLUMN [redemption-group] integer DEFAULT 1""",
    ],
    # 6 -> 7
    [
        """CREATE TABLE [event-stream] (
        [sequence-number] INTEGER PRIMARY KEY AUTOINCREMENT,
        [statement] TEXT,
        [important] BOOL
        )""",
    ],
    # 7 -> 8
    [
        """UPDATE [vouchers]
        SET [created] = datetime([created], "utc") || "+00:00" """,
        """UPDATE [lease-maintenance-spending]
        SET [started] = datetime([started], "utc") || "+00:00" """,
        """UPDATE [lease-maintenance-spending]
        SET [finished] = datetime([finished], "utc") || "+00:00"
        WHERE [finished] IS NOT NULL""",
    ],
    # 8 -> 9
    [
        """ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'""",
    ],
]


def make(conn, version, start=0):
    """
    Bring a database to a version in the manner of the release with that schema.
    """
    cur = conn.cursor()
    if start == 0:
        cur.execute("CREATE TABLE IF NOT EXISTS [version] AS SELECT 0 AS [version]")
    for v in range(start, version):
        for sql in STEPS[v]:
            cur.execute(sql)
            cur.fetchall()
        cur.execute("UPDATE [version] SET [version] = [version] + 1")
    cur.close()
