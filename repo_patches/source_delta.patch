From 07effbb92833137b7661f7781672dd923ec60ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 01/36] fix: resume voucher redemption from the durable group
 counter

A voucher in a transient state was resumed from group 0 (unpaid) or not at
all (error).  Resuming at 0 after some groups were redeemed submits new random
tokens for a redeemed group, which the issuer answers with double-spend.  The
outcome of an older attempt could also mask that of the most recent one.
---
 src/_zkapauthorizer/controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..fd6705a 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -928,7 +928,10 @@ class PaymentController(object):
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                # Only the durable state knows how many groups have already
+                # been redeemed.  The transient states (unpaid, error) only
+                # describe the outcome of the most recent attempt.
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
@@ -997,6 +1000,9 @@ class PaymentController(object):
         self._log.info(
             "Redeeming random tokens for a voucher ({voucher}).", voucher=voucher
         )
+        # The outcome of this attempt replaces that of any previous attempt.
+        self._unpaid.pop(voucher.number, None)
+        self._error.pop(voucher.number, None)
         try:
             self._active[voucher.number] = model_Redeeming(
                 started=self.store.now(),
-- 
2.43.0


From 848dd463438b657589654fabd5dd76fb2e296a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 02/36] fix: charge for the whole share when a mutable write
 renews its lease

A write to a share without an unexpired lease gives the whole share a new
lease but the price only covered the bytes which were written, so that even an
empty write renewed the lease on a share of any size for free.
---
 src/_zkapauthorizer/_storage_client.py | 28 +++++++++++++----------
 src/_zkapauthorizer/_storage_server.py | 31 +++++++++++++-------------
 src/_zkapauthorizer/storage_common.py  | 12 ++++++++--
 3 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..53e4b5a 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -622,23 +622,27 @@ class ZKAPAuthorizerStorageClient(object):
             # of the current size of all of the specified shares (keys of
             # tw_vectors).
             [stats] = await stat_shares(rref, [storage_index])
-            # Filter down to only the shares that have an active lease.  If
-            # we're going to write to any other shares we will have to pay to
-            # renew their leases.
+            # Distinguish the shares that have an active lease from those that
+            # don't.  If we're going to write to any of the latter we will
+            # have to pay to renew their leases.
             now = self._clock.seconds()
-            current_sizes = {
-                sharenum: stat.size
-                for (sharenum, stat) in stats.items()
-                if stat.lease_expiration > now
-                # Also, the size of any share we're not writing to doesn't
-                # matter.
-                and sharenum in write_sharenums
-            }
+            leased_sizes = {}
+            unleased_sizes = {}
+            for sharenum, stat in stats.items():
+                if sharenum not in write_sharenums:
+                    # The size of any share we're not writing to doesn't
+                    # matter.
+                    continue
+                if stat.lease_expiration > now:
+                    leased_sizes[sharenum] = stat.size
+                else:
+                    unleased_sizes[sharenum] = stat.size
             # Determine the cost of the new storage for the operation.
             num_passes = get_required_new_passes_for_mutable_write(
                 self._pass_value,
-                current_sizes,
+                leased_sizes,
                 old_tw_vectors,
+                unleased_sizes,
             )
 
         async def call(passes: IPassGroup) -> tuple[bool, dict[int, list[bytes]]]:
diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index e60b193..82eff4d 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -1050,21 +1050,21 @@ def get_writev_price(
         ),
     )
 
-    # Zero out the size of any share without an unexpired lease.  We will
-    # renew the lease on this share along with the write but the client
-    # must supply the necessary passes to do so.
-    current_sizes.update(
-        {
-            sharenum: 0
-            for sharenum in current_sizes
-            if not share_has_active_leases(
-                storage_server,
-                storage_index,
-                sharenum,
-                now,
-            )
-        }
-    )
+    # Set aside any share without an unexpired lease.  We will renew the lease
+    # on this share along with the write but the client must supply the
+    # necessary passes to do so, for the full size of the share.
+    unleased_sizes = {
+        sharenum: size
+        for (sharenum, size) in current_sizes.items()
+        if not share_has_active_leases(
+            storage_server,
+            storage_index,
+            sharenum,
+            now,
+        )
+    }
+    for sharenum in unleased_sizes:
+        del current_sizes[sharenum]
 
     # Compute the number of passes required to execute the given writev
     # against these existing shares.
@@ -1072,4 +1072,5 @@ def get_writev_price(
         pass_value,
         current_sizes,
         tw_vectors,
+        unleased_sizes,
     )
diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 6d8882a..9353246 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -17,7 +17,7 @@ Functionality shared between the storage client and server.
 """
 
 from base64 import b64encode
-from typing import Callable, TypedDict, Union, ValuesView, cast
+from typing import Callable, Optional, TypedDict, Union, ValuesView, cast
 
 from attrs import define
 from pyutil.mathutil import div_ceil
@@ -273,6 +273,7 @@ def get_required_new_passes_for_mutable_write(
     pass_value: int,
     current_sizes: dict[int, int],
     tw_vectors: dict[int, ServerTestWriteVector],
+    unleased_sizes: Optional[dict[int, int]] = None,
 ) -> int:
     """
     Get the number of new passes required to authorize a given write to a
@@ -280,10 +281,15 @@ def get_required_new_passes_for_mutable_write(
 
     :param pass_value: The value of a single pass in byte-months.
 
-    :param current_sizes: The current size of the mutable's shares.
+    :param current_sizes: The current size of the mutable's shares which are
+        already paid for (ie, which have an unexpired lease).
 
     :param tw_vectors: The test-and-write vectors that make up the write.
 
+    :param unleased_sizes: The current size of any written shares which do not
+        have an unexpired lease.  The write gives these a new lease so they
+        must be paid for in full.
+
     :return: The number of new passes which must be spent.
     """
     current_passes = required_passes(
@@ -292,6 +298,8 @@ def get_required_new_passes_for_mutable_write(
     )
 
     new_sizes = current_sizes.copy()
+    if unleased_sizes is not None:
+        new_sizes.update(unleased_sizes)
     size_updates = {
         sharenum: get_implied_data_length(data_vector, new_length)
         for (sharenum, (_, data_vector, new_length)) in tw_vectors.items()
-- 
2.43.0


From 8e7ee47301ef19e2db0c3480f662af88c922a378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 03/36] fix: recognize rejected passes reported over a Foolscap
 connection

The server's MorePassesRequired arrives as a RemoteException around a copied
failure so it was never recognized: rejected passes were put back and spent
again in every following call instead of being set aside and replaced.
---
 src/_zkapauthorizer/_storage_client.py | 47 ++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 53e4b5a..f970b87 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -20,13 +20,15 @@ This is the client part of a storage access protocol.  The server part is
 implemented in ``_storage_server.py``.
 """
 
+import re
 from functools import partial, wraps
-from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
+from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar, Union
 
 from allmydata.interfaces import IStorageServer
 from attrs import Factory, define, field
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
+from foolscap.tokens import RemoteException
 from twisted.internet.defer import Deferred
 from twisted.internet.interfaces import IReactorTime
 from twisted.python.reflect import namedAny
@@ -69,6 +71,42 @@ class IncorrectStorageServerReference(Exception):
     expected_name: str
 
 
+def _more_passes_required(
+    error: Union[MorePassesRequired, RemoteException]
+) -> Optional[MorePassesRequired]:
+    """
+    Recover a ``MorePassesRequired`` from the result of a remote call.
+
+    Foolscap does not give us the exception raised by the server.  It gives us
+    a ``RemoteException`` which has nothing but the name and the (possibly
+    truncated) string representation of the original exception.
+
+    :return: ``None`` if the given exception does not represent a
+        ``MorePassesRequired``.
+    """
+    if isinstance(error, MorePassesRequired):
+        return error
+    if error.failure.check(MorePassesRequired) is None:
+        return None
+    match = re.match(
+        r"MorePassesRequired\(valid_count=(\d+), required_count=(\d+), "
+        r"signature_check_failed=frozenset\((?:\{([\d, ]*))?(\}\)\))?",
+        error.failure.value,
+    )
+    if match is None:
+        return None
+    valid_count, required_count, indexes, complete = match.groups()
+    failed = (indexes or "").split(",")
+    if complete is None:
+        # The last one might have been cut short.  It will be reported again.
+        failed.pop()
+    return MorePassesRequired(
+        int(valid_count),
+        int(required_count),
+        frozenset(int(idx) for idx in failed if idx.strip()),
+    )
+
+
 def invalidate_rejected_passes(
     passes: IPassGroup, more_passes_required: MorePassesRequired
 ) -> Optional[IPassGroup]:
@@ -155,10 +193,13 @@ async def call_with_passes_with_manual_spend(
             while True:
                 try:
                     result = await method(pass_group)
-                except MorePassesRequired as e:
+                except (MorePassesRequired, RemoteException) as e:
+                    more_passes_required = _more_passes_required(e)
+                    if more_passes_required is None:
+                        raise
                     okay_pass_group = invalidate_rejected_passes(
                         pass_group,
-                        e,
+                        more_passes_required,
                     )
                     if okay_pass_group is None:
                         raise
-- 
2.43.0


From 14afe41c923b03526a5b5a3413502915d7274598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 04/36] fix: record changes in the transaction which makes them

Previously the events for a transaction were recorded in a second
transaction after the first was committed: a crash between the two lost
them.  And the statements of a transaction which was rolled back were kept
and recorded with the next one to be committed.
---
 src/_zkapauthorizer/replicate.py | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..4ba4bd9 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -61,6 +61,7 @@ __all__ = [
 
 import os
 import re
+import sys
 from enum import Enum
 from io import BytesIO
 from sqlite3 import Connection as _SQLite3Connection
@@ -419,8 +420,9 @@ class _ReplicationCapableConnection:
         """
         Add another observer of changes made through this connection.
 
-        :param fn: An object to call after any transaction with changes is
-            committed on this connection.
+        :param fn: An object to call with any transaction with changes that is
+            about to be committed on this connection.  What it returns is
+            called after the transaction is committed.
         """
         self._observers = self._observers + (fn,)
 
@@ -444,17 +446,27 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        post_txn_fns: list[Callable[[], None]] = []
         if exc_type is None:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
-                curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
-                post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+            # There was no exception, signal observers that a change is being
+            # committed.  Do this before the commit so that whatever they
+            # record about the change is committed with it or not at all.
+            try:
+                post_txn_fns.extend(self._maybe_signal_observers(self._conn.cursor()))
+            except BaseException:
+                self._conn.__exit__(*sys.exc_info())
+                raise
+        else:
+            # The changes are about to be rolled back.
+            self._mutations = list()
+        try:
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        except BaseException:
+            # Don't leave a transaction open if it could not be committed.
+            self._conn.rollback()
+            raise
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From ef63ed5541aeda7bdf5df4caf77c6c06cd38b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 05/36] fix: record the rows of executemany even if they come
 from an iterator

---
 src/_zkapauthorizer/replicate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 4ba4bd9..824b1fc 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -552,6 +552,8 @@ class _ReplicationCapableCursor:
         return cast(tuple[SQLType], self._cursor.fetchone())
 
     def executemany(self, statement: str, rows: Iterable[Parameters]) -> Cursor:
+        # The rows are needed twice if the change is to be recorded.
+        rows = list(rows)
         self._cursor.executemany(statement, rows)
         if self._connection._replicating and statement_mutates(statement):
             self._connection._mutations.append((self._important, statement, rows))
-- 
2.43.0


From f7e612b67086f41e20ce04cc4a229f0e7ca254ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:15 +0000
Subject: [PATCH 06/36] fix: do not end the transaction of someone else

While a recovery is in progress it holds a transaction open.  Any other use
of the database in the meantime failed to begin its own transaction but
rolled back - or, for the event stream, committed - the one which belongs to
the recovery.  The remaining recovery was then not atomic and could drop
changes made after it checked that there were none.
---
 src/_zkapauthorizer/model.py     | 27 +++++++++--------
 src/_zkapauthorizer/replicate.py | 51 ++++++++++++++++++++------------
 2 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..26c99c0 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -225,13 +225,15 @@ def with_cursor_async(
 
     @wraps(f)
     async def with_cursor_async(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
-        with self._connection:
-            cursor = self._connection.cursor()
-            try:
-                cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+        cursor = self._connection.cursor()
+        try:
+            # If this fails because there is a transaction already then that
+            # is someone else's transaction and not ours to roll back.
+            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+            with self._connection:
                 result = await f(self, cursor, *a, **kw)
-            finally:
-                cursor.close()
+        finally:
+            cursor.close()
         return result
 
     return with_cursor_async
@@ -249,13 +251,14 @@ def with_cursor(
 
     @wraps(f)
     def with_cursor(self: _S, /, *a: _P.args, **kw: _P.kwargs) -> _T:
-        with self._connection:
-            cursor = self._connection.cursor()
-            try:
-                cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+        cursor = self._connection.cursor()
+        try:
+            # See with_cursor_async about failures of this.
+            cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+            with self._connection:
                 result = f(self, cursor, *a, **kw)
-            finally:
-                cursor.close()
+        finally:
+            cursor.close()
         return result
 
     # Callable has no attribute wrapped ... yea ... true.
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 824b1fc..6ae6fac 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -436,6 +436,10 @@ class _ReplicationCapableConnection:
     def close(self) -> None:
         return self._conn.close()
 
+    def rollback(self) -> None:
+        self._mutations = list()
+        self._conn.rollback()
+
     def __enter__(self) -> _ReplicationCapableConnection:
         self._conn.__enter__()
         return self
@@ -721,15 +725,16 @@ def get_events(conn: _SQLite3Connection) -> EventStream:
     """
     Return all events currently in our event-log.
     """
-    with conn:
-        cursor = conn.cursor()
-        cursor.execute(
-            """
-            SELECT [sequence-number], [statement], [serialized_arguments], [important]
-            FROM [event-stream]
-            """
-        )
-        rows = cursor.fetchall()
+    # No transaction: this is a single read and if there is a transaction already
+    # then it is not ours to commit.
+    cursor = conn.cursor()
+    cursor.execute(
+        """
+        SELECT [sequence-number], [statement], [serialized_arguments], [important]
+        FROM [event-stream]
+        """
+    )
+    rows = cursor.fetchall()
     return EventStream(
         changes=[
             Change(seq, stmt, cbor2.loads(arguments), important)
@@ -742,16 +747,24 @@ def prune_events_to(conn: _SQLite3Connection, sequence_number: int) -> None:
     """
     Remove all events <= sequence_number
     """
-    with conn:
-        cursor = conn.cursor()
-        cursor.execute(
-            """
-            DELETE FROM [event-stream]
-            WHERE [sequence-number] <= (?)
-            """,
-            (sequence_number,),
-        )
-        cursor.fetchall()
+    cursor = conn.cursor()
+    # If this fails because there is a transaction already then that is someone
+    # else's transaction and not ours to commit.
+    cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+    try:
+        with conn:
+            cursor.execute(
+                """
+                DELETE FROM [event-stream]
+                WHERE [sequence-number] <= (?)
+                """,
+                (sequence_number,),
+            )
+            cursor.fetchall()
+    except BaseException:
+        # Don't leave the transaction open if it could not be committed.
+        conn.rollback()
+        raise
 
 
 @frozen
-- 
2.43.0


From 366b76219617adf1334f9366edc080cd1e429073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:15 +0000
Subject: [PATCH 07/36] fix: do not replicate which tokens are in use

Tokens are in use by one process only.  When its replacement used the same
tokens again then recovery from the recorded events failed with an
IntegrityError.  Or else the recovered store kept the tokens from use.
---
 src/_zkapauthorizer/model.py     | 3 ++-
 src/_zkapauthorizer/replicate.py | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 26c99c0..34c73e3 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -714,7 +714,8 @@ class VoucherStore(ConnectionHaver):
         if len(texts) < count:
             raise NotEnoughTokens()
 
-        cursor.executemany(
+        # Use of the tokens ends with this process, unlike what is replicated.
+        cursor.unreplicated.executemany(
             """
             INSERT INTO [in-use] VALUES (?)
             """,
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 6ae6fac..a09c6f6 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -519,6 +519,14 @@ class _ReplicationCapableCursor:
     # user will be interested in preserving")
     _important: bool = field(init=False, default=False)
 
+    @property
+    def unreplicated(self) -> _SQLite3Cursor:
+        """
+        A normal SQLite3 cursor in the same transaction, changes made via which
+        will not be replicated.
+        """
+        return self._cursor
+
     @property
     def lastrowid(self) -> Optional[int]:
         result = self._cursor.lastrowid
-- 
2.43.0


From d2ac7d2c1b77def07653c70e228fa5146967ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:01 +0000
Subject: [PATCH 08/36] fix: replay only the changes which follow what was
 recovered

As the design document says.  Objects of the replica overlap whenever there
is an interruption between an upload and the following pruning and replaying
the changes in the overlap twice either fails or recovers the wrong state.
---
 src/_zkapauthorizer/recover.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..c9c1a3f 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,25 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    sequence = recovered_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        sequence = recover_event_stream(event_stream, cursor, sequence)
+
+
+def recovered_sequence(cursor: Cursor) -> int:
+    """
+    Read the sequence number of the last change which is part of the snapshot
+    that has just been recovered.
+    """
+    cursor.execute(
+        "SELECT [name] FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ()
+    )
+    if cursor.fetchall() == []:
+        return 0
+    cursor.execute(
+        "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ()
+    )
+    return max((int(seq) for (seq,) in cursor.fetchall()), default=0)
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
@@ -254,13 +271,24 @@ def load_event_streams(
             yield EventStream.from_bytes(f)
 
 
-def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
+def recover_event_stream(
+    event_stream: EventStream, cursor: Cursor, sequence: int = 0
+) -> int:
     """
     Replay the changes in an event stream using the given cursor.
+
+    :param sequence: The sequence number of the last change the database
+        already includes.  Changes up to this one are not replayed.
+
+    :return: The sequence number of the last change the database now includes.
     """
     for change in event_stream.changes:
+        if change.sequence <= sequence:
+            continue
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
             cursor.execute(change.statement, change.arguments)
+        sequence = change.sequence
+    return sequence
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From 2b0fbff92d9cfa757e41f4559692736d03a2d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:01 +0000
Subject: [PATCH 09/36] fix: do not prune the first event if it is not in the
 snapshot

If the first change of all is made while the first snapshot is uploaded then
it is not in the snapshot.
---
 src/_zkapauthorizer/replicate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index a09c6f6..a0acb2d 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -974,7 +974,7 @@ class _ReplicationService(Service):
         from the replica that are no longer relevant.
         """
         # extract sequence-number and snapshot data
-        seqnum = 1
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From 1e1ab016a613e9ee3d312a8b9d1d444c147617e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 10/36] fix: keep replicating after an upload fails

Any failure of a single upload or pruning ended replication until the next
restart.
---
 src/_zkapauthorizer/replicate.py | 39 ++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index a0acb2d..c30eb2c 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -938,20 +938,39 @@ class _ReplicationService(Service):
     async def wait_for_uploads(self) -> None:
         """
         An infinite async loop that processes uploads of event-streams or
-        snapshots
+        snapshots.
+
+        A job which fails is tried again after some other one has succeeded.
         """
+        failed: list[ReplicationJob] = []
         while True:
             job = await self._jobs.get()
-            if job == ReplicationJob.event_stream:
-                await self._do_one_event_upload()
-            elif job == ReplicationJob.snapshot:
-                await self._do_one_snapshot_upload()
-            elif job == ReplicationJob.consider_snapshot:
-                await self._do_consider_snapshot()
-            elif job == ReplicationJob.startup:
-                await self._do_startup()
+            try:
+                await self._do_one_job(job)
+            except CancelledError:
+                raise
+            except Exception:
+                self._logger.failure("replication job {job} failed", job=job)
+                if job not in failed:
+                    failed.append(job)
             else:
-                raise Exception("internal error")  # pragma: nocover
+                while failed:
+                    self.queue_job(failed.pop(0))
+
+    async def _do_one_job(self, job: ReplicationJob) -> None:
+        """
+        Perform one of the kinds of jobs.
+        """
+        if job == ReplicationJob.event_stream:
+            await self._do_one_event_upload()
+        elif job == ReplicationJob.snapshot:
+            await self._do_one_snapshot_upload()
+        elif job == ReplicationJob.consider_snapshot:
+            await self._do_consider_snapshot()
+        elif job == ReplicationJob.startup:
+            await self._do_startup()
+        else:
+            raise Exception("internal error")  # pragma: nocover
 
     async def _do_startup(self) -> None:
         """
-- 
2.43.0


From f31d09b2ba078cd837a808a53ef0e15700cc8e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 11/36] fix: leave the database alone if recovery fails

A failed import was committed as far as it went: for example, with all of the
tables dropped.
---
 src/_zkapauthorizer/recover.py  |  6 ++++--
 src/_zkapauthorizer/resource.py | 25 +++++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index c9c1a3f..638c721 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -46,8 +46,7 @@ class RecoveryStages(Enum):
         database, the recovery system cannot be re-activated.
 
     :ivar failed: The recovery system has definitively failed in its attempt
-        to recover from a replica.  Recovery will progress no further.  It is
-        undefined what state now exists in the local database.
+        to recover from a replica.  Recovery will progress no further.
     """
 
     inactive = auto()
@@ -115,6 +114,9 @@ class StatefulRecoverer:
         """
         Begin the recovery process.
 
+        If it fails then the caller must roll back the transaction of the
+        cursor, since some of the replica may have been imported already.
+
         :param downloader: A callable which can be used to retrieve a replica.
 
         :param cursor: A database cursor which can be used to populate the
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..f3315df 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -22,7 +22,6 @@ In the future it should also allow users to read statistics about token usage.
 """
 
 from collections.abc import Awaitable
-from functools import partial
 from json import dumps
 from typing import Callable, Optional, Union, cast
 
@@ -59,6 +58,7 @@ from .pricecalculator import PriceCalculator
 from .private import create_private_tree
 from .recover import Downloader, RecoveryStages, RecoveryState, StatefulRecoverer
 from .replicate import ReplicationAlreadySetup
+from .sql import Cursor
 from .storage_common import (
     get_configured_allowed_public_keys,
     get_configured_pass_value,
@@ -259,6 +259,12 @@ class ReplicateResource(Resource):
         request.finish()  # type: ignore[no-untyped-call]
 
 
+class RecoveryFailed(Exception):
+    """
+    Recovery has failed, in the way given by the state of the recoverer.
+    """
+
+
 class RecoverProtocol(WebSocketServerProtocol):  # type: ignore[misc]
     """
     Speaks the server side of the WebSocket /recover protocol.
@@ -377,6 +383,11 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
                     client.sendClose()
 
             def err(f: Failure) -> None:
+                if f.check(RecoveryFailed):  # type: ignore[no-untyped-call]
+                    # The recoverer has already told everyone why.
+                    disconnect_clients()
+                    return
+
                 self._log.failure("Error during restore", f)
                 # One likely reason to get here is the ValueError we
                 # raise about existing local state .. and the
@@ -427,9 +438,15 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         # If these things succeed then we will have started recovery and
         # generated a response to the request.
         downloader = self.get_downloader(cap)
-        await store.call_if_empty(
-            partial(self.recoverer.recover, downloader)  # cursor added by call_if_empty
-        )
+
+        async def recover(cursor: Cursor) -> None:
+            await self.recoverer.recover(downloader, cursor)
+            if self.recoverer.state().stage != RecoveryStages.succeeded:
+                # Have call_if_empty roll back whatever was done before the
+                # failure.
+                raise RecoveryFailed()
+
+        await store.call_if_empty(recover)
         # let all exceptions (including NotEmpty) out
 
 
-- 
2.43.0


From e1655a2343eb2ae87ab01cf04147ba23d4c9db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 12/36] fix: accept the arguments of recorded changes during
 recovery

Once deserialized they are in a list, which the cursor of the store refuses,
so that recovery from a replica with any event stream failed.
---
 src/_zkapauthorizer/recover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 638c721..3f98a40 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -288,7 +288,7 @@ def recover_event_stream(
         if change.sequence <= sequence:
             continue
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, change.arguments)
+            cursor.execute(change.statement, tuple(change.arguments))
         sequence = change.sequence
     return sequence
 
-- 
2.43.0


From 2789bc59803a22409f04a09aa8d608a921e62d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 13/36] fix: do not reuse sequence numbers after recovery

Recovery into a node which has replicated changes already went back to the
sequence numbers of the recovered replica, so that the changes that followed
were taken for old ones when the node's own replica was recovered.
---
 src/_zkapauthorizer/recover.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3f98a40..7e26238 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -225,16 +225,27 @@ def recover(
     Synchronously execute statements from a snapshot and any applicable event
     streams against the given cursor.
     """
+    local_sequence = event_stream_sequence(cursor)
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
-    sequence = recovered_sequence(cursor)
+    sequence = event_stream_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
         sequence = recover_event_stream(event_stream, cursor, sequence)
+    if event_stream_sequence(cursor) < local_sequence:
+        # The local database has been replicated already.  Don't reuse
+        # sequence numbers or the new changes will be taken for the old ones.
+        cursor.execute(
+            "DELETE FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ()
+        )
+        cursor.execute(
+            "INSERT INTO [sqlite_sequence] ([name], [seq]) VALUES ('event-stream', ?)",
+            (local_sequence,),
+        )
 
 
-def recovered_sequence(cursor: Cursor) -> int:
+def event_stream_sequence(cursor: Cursor) -> int:
     """
-    Read the sequence number of the last change which is part of the snapshot
-    that has just been recovered.
+    Read the sequence number of the last change which was recorded in the
+    event stream table.
     """
     cursor.execute(
         "SELECT [name] FROM [sqlite_master] WHERE [name] = 'sqlite_sequence'", ()
-- 
2.43.0


From 97947ea856d0c54e30f8af05c20bdbb57dd75fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 14/36] fix: keep recovering when a client disconnects

An update for a client which was closing its connection raised an exception,
which made the recovery fail and kept the other clients from hearing about it.
---
 src/_zkapauthorizer/resource.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index f3315df..d5e80fa 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -26,6 +26,7 @@ from json import dumps
 from typing import Callable, Optional, Union, cast
 
 from attr import Factory, define, field
+from autobahn.exception import Disconnected
 from autobahn.twisted.resource import WebSocketResource
 from autobahn.twisted.websocket import WebSocketServerFactory, WebSocketServerProtocol
 from autobahn.websocket.interfaces import IWebSocketClientAgent
@@ -357,7 +358,16 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         update_msg = dumps(state.marshal()).encode("utf8")
         self.sent_updates.append(update_msg)
         for client in self.clients:
-            client.sendMessage(update_msg, False)
+            self._send_update(client, update_msg)
+
+    def _send_update(self, client: WebSocketServerProtocol, update: bytes) -> None:
+        """
+        Send one update to one client, unless the client is going away.
+        """
+        try:
+            client.sendMessage(update, False)
+        except Disconnected:
+            self._log.info("Recovery client disconnected before an update")
 
     def initiate_recovery(
         self, cap: DirectoryReadCapability, client: WebSocketServerProtocol
-- 
2.43.0


From 4090c43683a9e17fd81144d5351bdb07e7fdd825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 15/36] fix: answer every client which asks for recovery

Asking for another capability than that of the ongoing recovery failed
without the intended answer and yet subscribed the client to updates.  A
client which asked after the recovery was done was never disconnected.  One
which asked twice got everything twice.
---
 src/_zkapauthorizer/resource.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index d5e80fa..956c288 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -383,8 +383,8 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
@@ -417,17 +417,21 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
-        else:
+        elif client not in self.clients:
             # we got another client, and they sent the same recovery
             # capability, so be idempotent by acting the same as if this
             # was the first client. That means sending this client all the
             # status updates we've sent so far.
+            self.clients.append(client)
             for update in self.sent_updates:
-                client.sendMessage(update)
+                self._send_update(client, update)
+            if self.recovering_d.called:
+                # There will be no more updates.
+                client.sendClose()
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From e4542c8ebeaee372289a51d6cee0642f84b83ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 16/36] fix: don't try to maintain leases of nodes without a
 storage index

One literal file (55 bytes or less) in any maintained directory made the whole
lease maintenance run fail.
---
 src/_zkapauthorizer/lease_maintenance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..17c2e67 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -97,7 +97,11 @@ async def visit_storage_indexes(
     stack = root_nodes[:]
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
+        storage_index = elem.get_storage_index()
+        # A literal has its content in its capability and an unknown node is
+        # of no known kind.  There is nothing to maintain for either.
+        if storage_index is not None:
+            visit(storage_index)
         if IDirectoryNode.providedBy(elem):
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
-- 
2.43.0


From c7aad300bdd132bc6802b30f85f6aac47ef74ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 17/36] fix: visit each directory once in lease maintenance

A directory linked from one of its own descendants made lease maintenance run
forever.
---
 src/_zkapauthorizer/lease_maintenance.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 17c2e67..a061591 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -95,6 +95,9 @@ async def visit_storage_indexes(
             )
 
     stack = root_nodes[:]
+    # The directories which were listed already.  Directories can be linked more
+    # than once, also from their own descendants.
+    listed: set[StorageIndex] = set()
     while stack:
         elem = stack.pop()
         storage_index = elem.get_storage_index()
@@ -102,7 +105,9 @@ async def visit_storage_indexes(
         # of no known kind.  There is nothing to maintain for either.
         if storage_index is not None:
             visit(storage_index)
-        if IDirectoryNode.providedBy(elem):
+        if IDirectoryNode.providedBy(elem) and storage_index not in listed:
+            if storage_index is not None:
+                listed.add(storage_index)
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
-- 
2.43.0


From 6acaed4c1a457fd563f555a09982fc330bd13d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 18/36] fix: keep maintaining the other leases after one
 failure

A directory which cannot be read, a failing server, or a lease which cannot be
renewed ended the lease maintenance run, leaving all of the leases after it
unmaintained in every run.
---
 src/_zkapauthorizer/lease_maintenance.py | 32 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index a061591..68c4683 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -108,7 +108,11 @@ async def visit_storage_indexes(
         if IDirectoryNode.providedBy(elem) and storage_index not in listed:
             if storage_index is not None:
                 listed.add(storage_index)
-            children = await elem.list()
+            try:
+                children = await elem.list()
+            except Exception:
+                err(Failure(), "Lease maintenance cannot list a directory")  # type: ignore[no-untyped-call]
+                continue
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
             stable_children = sorted(children.items())
@@ -180,15 +184,18 @@ async def renew_leases(
 
     for server in servers:
         # Consider parallelizing this.
-        await renew_leases_on_server(
-            min_lease_remaining,
-            renewal_secret,
-            cancel_secret,
-            storage_indexes,
-            server,
-            activity,
-            now(),
-        )
+        try:
+            await renew_leases_on_server(
+                min_lease_remaining,
+                renewal_secret,
+                cancel_secret,
+                storage_indexes,
+                server,
+                activity,
+                now(),
+            )
+        except Exception:
+            err(Failure(), "Lease maintenance failed on a server")  # type: ignore[no-untyped-call]
 
     activity.finish()
 
@@ -246,7 +253,10 @@ async def renew_leases_on_server(
         # whether to renew leases at this storage index or not based on that.
         most_endangered = soonest_expiration(stat_dict.values())
         if needs_lease_renew(min_lease_remaining, most_endangered, now):
-            await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            try:
+                await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            except Exception:
+                err(Failure(), "Lease maintenance failed to renew a lease")  # type: ignore[no-untyped-call]
 
 
 def soonest_expiration(stats: Iterable[ShareStat]) -> ShareStat:
-- 
2.43.0


From d623b7f14f9c246bd8be04c4c5c636a230b972ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 19/36] fix: let lease maintenance be stopped while it is
 running

stopService raised AlreadyCalled during a run, and the run scheduled the next
one in spite of the service being stopped.
---
 src/_zkapauthorizer/lease_maintenance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 68c4683..4701a17 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -388,6 +388,7 @@ class _FuzzyTimerService(Service, Generic[_C]):
         """
         Run the operation once and then schedule it to run again.
         """
+        self._call = None
 
         async def go() -> None:
             try:
@@ -395,7 +396,9 @@ class _FuzzyTimerService(Service, Generic[_C]):
             except:
                 f = Failure()  # type: ignore[no-untyped-call]
                 err(f, f"Fuzzy timer service ({self.name})")  # type: ignore[no-untyped-call]
-            self._schedule()
+            # The service may have been stopped meanwhile.
+            if self.running and self._call is None:
+                self._schedule()
 
         Deferred.fromCoroutine(go())
 
-- 
2.43.0


From 5809ae0d7be61a3ed49523a242be89eedbba3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 20/36] fix: start lease maintenance in spite of a garbled last
 run file

An empty or otherwise unreadable last run time kept the client node from
starting.
---
 src/_zkapauthorizer/lease_maintenance.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 4701a17..6d730fd 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -635,8 +635,9 @@ def read_time_from_path(path: FilePath) -> Optional[datetime]:
 
     :param path: The path to a file containing a datetime string.
 
-    :return: None if no file exists at the path.  Otherwise, a datetime
-        instance giving the time represented in the file.
+    :return: None if no file exists at the path or its content is not
+        understood.  Otherwise, a datetime instance giving the time represented
+        in the file.
     """
     try:
         when = path.getContent()  # type: ignore[no-untyped-call]
@@ -645,8 +646,14 @@ def read_time_from_path(path: FilePath) -> Optional[datetime]:
             return None
         raise
     else:
-        result = parse_datetime(when.decode("ascii"))
-        assert isinstance(result, datetime)
+        try:
+            result = parse_datetime(when.decode("ascii"))
+            assert isinstance(result, datetime)
+            if result.tzinfo is not None:
+                raise ValueError("expected a time without a time zone")
+        except Exception:
+            err(Failure(), f"Cannot read a time from {path.path}")  # type: ignore[no-untyped-call]
+            return None
         return result
 
 
-- 
2.43.0


From aac62721ce71e26cd402044a187ff09c872051e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 21/36] fix: don't defer lease maintenance for a last run time
 in the future

---
 src/_zkapauthorizer/lease_maintenance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 6d730fd..49c5ce2 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -780,6 +780,7 @@ def calculate_initial_interval(
     :param datetime last_run: The time of the last scan.
     :param datetime now: The current time.
     """
-    since_last_run = now - last_run
+    # A last run in the future is due to a change of the clock.
+    since_last_run = max(now - last_run, timedelta(0))
     initial_interval = sample_interval_distribution() - since_last_run
     return initial_interval
-- 
2.43.0


From d9451cbbf90a2942e4d7e0e5bae05d3368a59b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 22/36] fix: never wait for a negative time for lease
 maintenance

With an interval range of more than twice the mean, such as the default range
and a mean of one day, starting the service or scheduling the next run failed.
---
 src/_zkapauthorizer/lease_maintenance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 49c5ce2..7441b1e 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -445,12 +445,14 @@ def lease_maintenance_service(
     halfrange = interval_range // 2
 
     def sample_interval_distribution() -> timedelta:
-        return timedelta(
+        sample = timedelta(
             seconds=random.uniform(
                 (interval_mean - halfrange).total_seconds(),
                 (interval_mean + halfrange).total_seconds(),
             ),
         )
+        # The configured range may be more than twice the mean.
+        return max(sample, timedelta(0))
 
     # Rather than an all-or-nothing last-run time we probably eventually want
     # to have a more comprehensive record of the state when we were last
-- 
2.43.0


From 455d2ee96aacd39bfd4e6657f0ebae6139ab1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 23/36] fix: return the recovery capability again when
 replication is already set up

A repeated request to set up replication was answered with a server error because
it was given a digest of the write capability to parse as the read-only one.
---
 src/_zkapauthorizer/_plugin.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 667045c..db72348 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -38,7 +38,7 @@ from challenge_bypass_ristretto import PublicKey, SigningKey
 from eliot import start_action
 from foolscap.ipb import IRemoteReference
 from prometheus_client import CollectorRegistry, write_to_textfile
-from tahoe_capabilities import DirectoryReadCapability
+from tahoe_capabilities import DirectoryReadCapability, danger_real_capability_string
 from twisted.application.service import IService, MultiService
 from twisted.internet import task
 from twisted.internet.defer import Deferred, succeed
@@ -62,6 +62,7 @@ from .model import VoucherStore, aware_now
 from .model import open_database as _open_database
 from .recover import get_tahoe_lafs_downloader
 from .replicate import (
+    ReplicationAlreadySetup,
     _ReplicationCapableConnection,
     get_replica_rwcap,
     get_tahoe_lafs_direntry_replica,
@@ -326,7 +327,15 @@ class ZKAPAuthorizer(object):
 
         async def setup_replication() -> DirectoryReadCapability:
             # Setup replication
-            replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            try:
+                replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            except ReplicationAlreadySetup:
+                # Tell the user, who is authorized to have it, the real
+                # read-only capability and not only a digest of something.
+                rw_cap = get_replica_rwcap(node_config)
+                raise ReplicationAlreadySetup(
+                    danger_real_capability_string(rw_cap.reader)
+                )
             # And then turn replication on for the database connection already
             # in use.
             self._add_replication_service(store._connection, node_config)
-- 
2.43.0


From 2dd7e7c638588198ac142eb22e03c681873848cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 24/36] fix: upgrade the database in one transaction

---
 src/_zkapauthorizer/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 34c73e3..c507470 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -160,6 +160,10 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # schema.
         cursor.execute("PRAGMA foreign_keys = ON", ())
 
+        # sqlite3 does not implicitly begin a transaction for statements which
+        # change the schema.  An upgrade must happen completely or not at all.
+        cursor.execute("BEGIN IMMEDIATE TRANSACTION")
+
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
         actual_version = get_schema_version(cursor)
-- 
2.43.0


From feb551ee5bffe6f258c61b46e08ce38abfd37a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 25/36] fix: keep the tokens of partially redeemed vouchers
 spendable over an upgrade

---
 src/_zkapauthorizer/schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index a4362b5..2e4badc 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -186,12 +186,13 @@ _UPGRADES = {
         )
         """,
         """
-        -- Create one redemption group for every existing, redeemed voucher.
-        -- These tokens were probably *not* all redeemed in one group but
+        -- Create one redemption group for every existing voucher which has been
+        -- redeemed at least partially.  These tokens were probably *not* all redeemed in one group but
         -- we've only preserved one public key for them so we can't do much
         -- better than this.
         INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable])
-            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed"
+            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers]
+            WHERE [state] = "redeemed" OR [counter] > 0
         """,
         """
         -- Give each voucher a count of "sequestered" tokens.  Currently,
-- 
2.43.0


From 32f949350dbb87421c5e8dddcb92d02f32103d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 26/36] fix: upgrade the time when a voucher was redeemed to
 UTC too

---
 src/_zkapauthorizer/schema.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index 2e4badc..e03b51c 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -278,4 +278,12 @@ _UPGRADES = {
         ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'
         """,
     ],
+    9: [
+        # The upgrade of naive, localtime values to UTC missed this column.
+        """
+        UPDATE [vouchers]
+        SET [finished] = datetime([finished], "utc") || "+00:00"
+        WHERE [finished] IS NOT NULL AND [finished] NOT LIKE "%+00:00"
+        """,
+    ],
 }
-- 
2.43.0


From a6f2a3ca1dd884b40034cd16177b5ea62f6b2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 27/36] fix: replicate schema upgrades

---
 src/_zkapauthorizer/model.py     | 8 ++++++++
 src/_zkapauthorizer/replicate.py | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index c507470..cb68123 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -53,6 +53,7 @@ from ._types import JSON, GetTime
 from .replicate import (
     _ReplicationCapableConnection,
     _ReplicationCapableCursor,
+    add_events,
     snapshot,
 )
 from .schema import get_schema_upgrades, get_schema_version, run_schema_upgrades
@@ -169,6 +170,13 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         actual_version = get_schema_version(cursor)
         schema_upgrades = list(get_schema_upgrades(actual_version))
         run_schema_upgrades(iter(schema_upgrades), cursor)
+        if actual_version > 0 and conn.replicating:
+            # A replica of the older schema must be upgraded before any
+            # further changes are applied to it.  There are no observers yet
+            # so record this here.
+            add_events(
+                cursor.unreplicated, ((sql, ()) for sql in schema_upgrades), True
+            )
 
         # Create some tables that only exist (along with their contents) for
         # this connection.  These are outside of the schema because they are not
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index c30eb2c..227abc3 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -436,6 +436,13 @@ class _ReplicationCapableConnection:
     def close(self) -> None:
         return self._conn.close()
 
+    @property
+    def replicating(self) -> bool:
+        """
+        True if changes made via this connection are replicated.
+        """
+        return self._replicating
+
     def rollback(self) -> None:
         self._mutations = list()
         self._conn.rollback()
-- 
2.43.0


From 87937f5a70527a7088a13cbb470cd8948f489b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 28/36] fix: upgrade the schema of a recovered database

---
 src/_zkapauthorizer/recover.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 7e26238..687abf9 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -23,6 +23,7 @@ from attrs import define, field
 from tahoe_capabilities import DirectoryReadCapability
 
 from .replicate import SNAPSHOT_NAME, EventStream, statements_to_snapshot
+from .schema import get_schema_upgrades, get_schema_version, run_schema_upgrades
 from .sql import Cursor, escape_identifier
 from .tahoe import DataProvider, FileNode, ITahoeClient, download_child
 
@@ -230,6 +231,7 @@ def recover(
     sequence = event_stream_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
         sequence = recover_event_stream(event_stream, cursor, sequence)
+    upgrade_schema(cursor)
     if event_stream_sequence(cursor) < local_sequence:
         # The local database has been replicated already.  Don't reuse
         # sequence numbers or the new changes will be taken for the old ones.
@@ -242,6 +244,17 @@ def recover(
         )
 
 
+def upgrade_schema(cursor: Cursor) -> None:
+    """
+    If the replica was made by an older version of the software, bring the
+    recovered database to the schema this version needs.
+    """
+    cursor.execute("SELECT [name] FROM [sqlite_master] WHERE [name] = 'version'", ())
+    if cursor.fetchall() != []:
+        upgrades = get_schema_upgrades(get_schema_version(cursor))
+        run_schema_upgrades(upgrades, cursor)
+
+
 def event_stream_sequence(cursor: Cursor) -> int:
     """
     Read the sequence number of the last change which was recorded in the
-- 
2.43.0


From 15aea15ec615056c861d6f9fe0136a7539f1f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 29/36] fix: retry redemptions which ended with a local failure

When the result of a redemption, or the random tokens for its next group, could
not be stored the voucher remained pending but nothing tried to redeem it again
until the next restart.
---
 src/_zkapauthorizer/controller.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index fd6705a..daa8c54 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -847,11 +847,14 @@ class PaymentController(object):
         )
 
     def _retry_redemption(self) -> None:
-        for voucher in list(self._error.keys()) + list(self._unpaid.keys()):
-            if voucher in self._active:
-                continue
-            if self.get_voucher(voucher).state.should_start_redemption():
-                Deferred.fromCoroutine(self.redeem(voucher))
+        # Consider everything the store says is not redeemed yet.  An attempt
+        # may have ended without leaving a transient state behind (for example
+        # because its result could not be stored).
+        for voucher in self.store.list():
+            if self.incorporate_transient_state(
+                voucher
+            ).state.should_start_redemption():
+                Deferred.fromCoroutine(self.redeem(voucher.number))
 
     def _check_pending_vouchers(self) -> None:
         """
-- 
2.43.0


From b6f4669f24782acbbca1cb293e1bb0cb3d3e1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 30/36] fix: do not report that a voucher which could not be
 stored was accepted

---
 src/_zkapauthorizer/resource.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 956c288..a4d13e3 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -728,7 +728,14 @@ class _VoucherCollection(Resource):
         self._log.info(
             "Accepting a voucher ({voucher}) for redemption.", voucher=voucher
         )
-        Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        number = voucher.encode("ascii")
+        Deferred.fromCoroutine(self._controller.redeem(number))
+        try:
+            self._store.get(number)
+        except KeyError:
+            # The controller could not store the voucher so it will not be
+            # redeemed.
+            set_response_code(request, INTERNAL_SERVER_ERROR)
         return b""
 
     def render_GET(self, request: IRequest) -> bytes:
-- 
2.43.0


From b99075e0e499697f4ff92e575dc6209da298ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 31/36] fix: answer a request for a voucher which is not UTF-8
 with BAD REQUEST

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index a4d13e3..baa76fb 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -750,7 +750,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From a1768d14cff851c0cab35f99fac27ce346b62aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 32/36] fix: scrub capabilities from the message of Tahoe-LAFS
 API errors

---
 src/_zkapauthorizer/tahoe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index b5c4a88..d23cccb 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -179,6 +179,12 @@ class TahoeAPIError(Exception):
     status: int
     body: str
 
+    def __attrs_post_init__(self) -> None:
+        # The base class remembers the arguments as they were given and uses
+        # them in the string form of the exception.  Make it remember the
+        # scrubbed URL.
+        self.args = (self.method, self.url, self.status, self.body)
+
 
 class NotWriteableError(Exception):
     """
-- 
2.43.0


From 8c2eb638dcb2482d52c38247ead8b7a76523985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 33/36] fix: refuse meaningless arguments of storage calls
 before anything is stored

---
 src/_zkapauthorizer/_storage_server.py | 45 ++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/_zkapauthorizer/_storage_server.py b/src/_zkapauthorizer/_storage_server.py
index 82eff4d..63d099a 100644
--- a/src/_zkapauthorizer/_storage_server.py
+++ b/src/_zkapauthorizer/_storage_server.py
@@ -37,6 +37,7 @@ from typing import (
     Any,
     Callable,
     Container,
+    Iterable,
     Iterator,
     NoReturn,
     Optional,
@@ -100,6 +101,9 @@ from .validators import positive_integer
 SLOT_HEADER_SIZE = 468
 LEASE_TRAILER_SIZE = 4
 
+# The number of bytes in every storage index.
+_STORAGE_INDEX_LENGTH = 16
+
 
 class NewLengthRejected(Exception):
     """
@@ -373,6 +377,7 @@ class ZKAPAuthorizerStorageServer(Referenceable):
             sharenums,
             allocated_size,
         )
+        check_storage_arguments(storage_index, sharenums, [allocated_size])
 
         alreadygot, bucketwriters = self._original.allocate_buckets(
             storage_index,
@@ -586,6 +591,16 @@ class ZKAPAuthorizerStorageServer(Referenceable):
         if required_new_passes > len(validation.valid):
             validation.raise_for(required_new_passes)
 
+        check_storage_arguments(
+            storage_index,
+            tw_vectors,
+            [
+                offset
+                for (_, data_vector, _) in tw_vectors.values()
+                for (offset, _) in data_vector
+            ],
+        )
+
         # Perform the operation.
         result = self._original.slot_testv_and_readv_and_writev(
             storage_index,
@@ -639,6 +654,36 @@ class ZKAPAuthorizerStorageServer(Referenceable):
             return self._original.slot_readv(storage_index, shares, readv)  # type: ignore[no-any-return]
 
 
+def check_storage_arguments(
+    storage_index: bytes, sharenums: Iterable[int], positions: Iterable[int]
+) -> None:
+    """
+    Check the arguments of a call which might store something for values
+    which the Foolscap schema allows but which have no meaning.
+
+    Without this check such a call could fail only after it has already
+    created some files or it could create files which are not recognized as
+    shares and so are kept forever.
+
+    :param storage_index: The storage index to which something is to be
+        stored.
+
+    :param sharenums: The numbers of the shares to be stored.
+
+    :param positions: Sizes of or offsets into the shares to be stored.
+
+    :raise ValueError: If any of the arguments is invalid.
+    """
+    if len(storage_index) != _STORAGE_INDEX_LENGTH:
+        raise ValueError(f"invalid storage index: {storage_index!r}")
+    for sharenum in sharenums:
+        if sharenum < 0:
+            raise ValueError(f"invalid share number: {sharenum}")
+    for position in positions:
+        if position < 0:
+            raise ValueError(f"invalid share size or offset: {position}")
+
+
 def check_pass_quantity(
     pass_value: int,
     validation: _ValidationResult,
-- 
2.43.0


From ff90b81aeff389262f473654b5ad810e843bf029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 34/36] fix: do not accept cookies from the issuer

---
 src/_zkapauthorizer/controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index daa8c54..684bf30 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -20,6 +20,7 @@ for the client side of the storage plugin.
 from base64 import b64decode, b64encode
 from datetime import datetime, timedelta
 from hashlib import sha256
+from http.cookiejar import CookieJar, DefaultCookiePolicy
 from json import loads
 from typing import Any, Callable, Optional, Sequence
 
@@ -593,8 +594,11 @@ class RistrettoRedeemer(object):
             if announced_issuer != configured_issuer:
                 raise IssuerConfigurationMismatch(announced_issuer, configured_issuer)
 
+        # Do not accept any cookies.  They would let the issuer recognize us when
+        # we redeem another voucher.
+        no_cookies = CookieJar(DefaultCookiePolicy(allowed_domains=[]))
         return cls(
-            HTTPClient(Agent(reactor)),  # type: ignore[no-untyped-call]
+            HTTPClient(Agent(reactor), no_cookies),  # type: ignore[no-untyped-call]
             URL.from_text(configured_issuer),
         )
 
-- 
2.43.0


From 4c711ff78a715f8f5a9093e5ce478cc83c470d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 35/36] fix: give the lease seed of a server to lease
 maintenance

Lease maintenance asks the storage client of a server for its lease seed
but only Tahoe-LAFS' own server object had one, so each attempt to renew a
lease failed and leases expired.
---
 src/_zkapauthorizer/_plugin.py         |  1 +
 src/_zkapauthorizer/_storage_client.py | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index db72348..fe2ac8a 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -314,6 +314,7 @@ class ZKAPAuthorizer(object):
             get_configured_pass_value(node_config),
             get_rref,
             controller.get,
+            furl=announcement.get("storage-server-FURL"),
         )
 
     def get_client_resource(self, node_config: Config) -> IZKAPRoot:
diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index f970b87..4ae4d93 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -25,6 +25,7 @@ from functools import partial, wraps
 from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar, Union
 
 from allmydata.interfaces import IStorageServer
+from allmydata.util.base32 import a2b
 from attrs import Factory, define, field
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
@@ -421,6 +422,8 @@ class ZKAPAuthorizerStorageClient(object):
         to authorize an operation.  The first argument is utf-8 encoded
         message binding the passes to the request for which they will be used.
         The second gives the number of passes to request.
+
+    :ivar _furl: The FURL at which the server was announced, if it is known.
     """
 
     _expected_remote_interface_name = (
@@ -433,6 +436,19 @@ class ZKAPAuthorizerStorageClient(object):
         validator=provides(IReactorTime),
         default=Factory(partial(namedAny, "twisted.internet.reactor")),
     )
+    _furl: Optional[str] = None
+
+    def get_lease_seed(self) -> bytes:
+        """
+        Get the value which makes the lease secrets used with this server
+        different from those used with any other server.  This is the same value
+        Tahoe-LAFS uses when it creates leases on this server.
+        """
+        match = re.match(r"pb://(\w+)@", "" if self._furl is None else self._furl)
+        if match is None:
+            raise ValueError("The server was announced without a usable FURL")
+        tubid: bytes = a2b(match.group(1).lower().encode("ascii"))
+        return tubid
 
     def _rref(self) -> IRemoteReference:
         rref = self._get_rref()
-- 
2.43.0


From 169ca2fb6f3ebbab07ead72f1993e585ffeda555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:46 +0000
Subject: [PATCH 36/36] fix: try failed replication jobs again after a while

The storage servers are not connected yet when a node starts, so the startup
job always failed, and it was not tried again until some other job succeeded.
Changes which were not uploaded before a restart or while there was no
connection stayed out of the replica.
---
 src/_zkapauthorizer/_plugin.py   |  2 +-
 src/_zkapauthorizer/replicate.py | 45 ++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index fe2ac8a..c3d2123 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -233,7 +233,7 @@ class ZKAPAuthorizer(object):
             client.get_config().encoding,
             10,
         )
-        svc = replication_service(replicated_conn, replica, cost)
+        svc = replication_service(replicated_conn, replica, cost, self.reactor)
         svc.setServiceParent(self._service)  # type: ignore[no-untyped-call]
 
     def _get_redeemer(
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 227abc3..fa2edb9 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -95,6 +95,7 @@ from tahoe_capabilities import (
 )
 from twisted.application.service import IService, Service
 from twisted.internet.defer import CancelledError, Deferred, DeferredQueue, succeed
+from twisted.internet.interfaces import IDelayedCall, IReactorTime
 from twisted.logger import Logger
 from twisted.python.filepath import FilePath
 from twisted.python.lockfile import FilesystemLock
@@ -133,6 +134,11 @@ class SnapshotPolicy(Protocol):
 
 SNAPSHOT_NAME = "snapshot"
 
+# The number of seconds between the failure of a replication job and the next
+# attempt, which doubles with each failure until a job succeeds.
+MINIMUM_RETRY_DELAY = 30
+MAXIMUM_RETRY_DELAY = 60 * 60 * 24
+
 
 @frozen
 class Replica:
@@ -860,6 +866,14 @@ class _ReplicationService(Service):
 
     :ivar _replicating: The long-running replication operation.  This is never
         expected to complete but it will be cancelled when the service stops.
+
+    :ivar _reactor: If given, used to schedule another attempt after a job has
+        failed.
+
+    :ivar _retry: The next attempt, if one is scheduled.
+
+    :ivar _retry_delay: The number of seconds until the next attempt, should a
+        job fail.
     """
 
     name = "replication-service"
@@ -873,6 +887,10 @@ class _ReplicationService(Service):
     _changes: AccumulatedChanges = AccumulatedChanges.no_changes()
     _jobs: DeferredQueue[ReplicationJob] = field(factory=DeferredQueue)
 
+    _reactor: Optional[IReactorTime] = None
+    _retry: Optional[IDelayedCall] = field(init=False, default=None)
+    _retry_delay: int = field(init=False, default=MINIMUM_RETRY_DELAY)
+
     @property
     def _unreplicated_connection(self) -> _SQLite3Connection:
         """
@@ -948,6 +966,8 @@ class _ReplicationService(Service):
         snapshots.
 
         A job which fails is tried again after some other one has succeeded.
+        If there is no other one then the local and remote state are examined
+        again after a while.
         """
         failed: list[ReplicationJob] = []
         while True:
@@ -960,10 +980,26 @@ class _ReplicationService(Service):
                 self._logger.failure("replication job {job} failed", job=job)
                 if job not in failed:
                     failed.append(job)
+                self._retry_later()
             else:
+                if job != ReplicationJob.startup:
+                    self._retry_delay = MINIMUM_RETRY_DELAY
                 while failed:
                     self.queue_job(failed.pop(0))
 
+    def _retry_later(self) -> None:
+        """
+        Arrange for the startup job to be done again, after which all failed
+        jobs are tried again.
+        """
+        retry = self._retry
+        if self._reactor is None or (retry is not None and retry.active()):
+            return
+        self._retry = self._reactor.callLater(
+            self._retry_delay, self.queue_job, ReplicationJob.startup
+        )
+        self._retry_delay = min(2 * self._retry_delay, MAXIMUM_RETRY_DELAY)
+
     async def _do_one_job(self, job: ReplicationJob) -> None:
         """
         Perform one of the kinds of jobs.
@@ -1101,6 +1137,10 @@ class _ReplicationService(Service):
         """
         super().stopService()  # type: ignore[no-untyped-call]
 
+        retry = self._retry
+        if retry is not None and retry.active():
+            retry.cancel()
+
         replicating = self._replicating
         if replicating is None:
             return succeed(None)
@@ -1170,13 +1210,18 @@ def replication_service(
     replicated_connection: _ReplicationCapableConnection,
     replica: Replica,
     snapshot_policy: SnapshotPolicy,
+    reactor: Optional[IReactorTime] = None,
 ) -> IService:
     """
     Return a service which implements the replication process documented in
     the ``backup-recovery`` design document.
+
+    :param reactor: If given, used to try again after a replication job has
+        failed.
     """
     return _ReplicationService(
         connection=replicated_connection,
         replica=replica,
         snapshot_policy=snapshot_policy,
+        reactor=reactor,
     )
-- 
2.43.0

