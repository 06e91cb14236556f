From 7e005fcf698547dd089219ec1bf441e13ab47710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 01/39] fix: make tokens available again when passes cannot be
 made from them

---
 src/_zkapauthorizer/spending.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/spending.py b/src/_zkapauthorizer/spending.py
index 0ee7453..35bc46c 100644
--- a/src/_zkapauthorizer/spending.py
+++ b/src/_zkapauthorizer/spending.py
@@ -208,7 +208,13 @@ class SpendingController(object):
 
     def get(self, message: bytes, num_passes: int) -> PassGroup:
         unblinded_tokens = self.get_unblinded_tokens(num_passes)
-        passes = self.tokens_to_passes(message, unblinded_tokens)
+        try:
+            passes = self.tokens_to_passes(message, unblinded_tokens)
+        except:
+            # The caller gets no group to reset so make the tokens available
+            # again here.
+            self.reset_unblinded_tokens(unblinded_tokens)
+            raise
         GET_PASSES.log(
             message=message.decode("utf-8"),
             count=num_passes,
-- 
2.43.0


From a0d8e90b3e1ed62b74b7b66484109d9efddf31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 02/39] fix: do not retry for ever when a server rejects only
 passes it was not sent

---
 src/_zkapauthorizer/_storage_client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 19c8ee2..6e88466 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -102,6 +102,10 @@ def invalidate_rejected_passes(
     rejected_passes, okay_passes = passes.split(
         more_passes_required.signature_check_failed
     )
+    if len(rejected_passes.passes) == 0:
+        # The server only rejected passes we did not send.  There is nothing
+        # to replace so another try would just be the same again.
+        return None
     rejected_passes.mark_invalid("signature check failed")
 
     # It would be great to just expand okay_passes right here.  However, if
-- 
2.43.0


From 44fef203e469b09237d68990455d47682c3483cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 03/39] fix: resume redemption after an error or unpaid answer
 at the first part not yet redeemed

---
 src/_zkapauthorizer/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index aa728e2..a8010f6 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -928,7 +928,9 @@ class PaymentController(object):
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
-                counter_start = voucher_obj.state.start_at_counter()
+                # Transient states do not know how much of the voucher has
+                # been redeemed already.  The persistent state does.
+                counter_start = self.store.get(voucher).state.start_at_counter()
             else:
                 self._log.info(
                     "Cannot redeem voucher in state {state}.",
-- 
2.43.0


From aaa54dba22d2623ac70b960c611a2eb6ed831634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 04/39] fix: retry a voucher whose redemption stopped because
 the database failed

---
 src/_zkapauthorizer/controller.py | 52 ++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index a8010f6..b052efe 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -850,7 +850,16 @@ class PaymentController(object):
         for voucher in list(self._error.keys()) + list(self._unpaid.keys()):
             if voucher in self._active:
                 continue
-            if self.get_voucher(voucher).state.should_start_redemption():
+            try:
+                voucher_obj = self.get_voucher(voucher)
+            except Exception:
+                # Do not let this end the retry loop.
+                self._log.failure(
+                    "Could not load voucher ({voucher}) to retry its redemption.",
+                    voucher=voucher,
+                )
+                continue
+            if voucher_obj.state.should_start_redemption():
                 Deferred.fromCoroutine(self.redeem(voucher))
 
     def _check_pending_vouchers(self) -> None:
@@ -919,12 +928,14 @@ class PaymentController(object):
             voucher_obj = self.get_voucher(voucher)
         except KeyError:
             # This is our first time dealing with this number.
+            known = False
             counter_start = 0
             if num_tokens is None:
                 real_num_tokens = self.default_token_count
             else:
                 real_num_tokens = num_tokens
         else:
+            known = True
             real_num_tokens = voucher_obj.expected_tokens
             # Determine the starting point from the state.
             if voucher_obj.state.should_start_redemption():
@@ -958,17 +969,26 @@ class PaymentController(object):
             token_count = token_count_for_group(
                 self.num_redemption_groups, real_num_tokens, counter
             )
-            tokens = self._get_random_tokens_for_voucher(
-                voucher,
-                counter,
-                num_tokens=token_count,
-                total_tokens=real_num_tokens,
-            )
+            try:
+                tokens = self._get_random_tokens_for_voucher(
+                    voucher,
+                    counter,
+                    num_tokens=token_count,
+                    total_tokens=real_num_tokens,
+                )
+                known = True
 
-            # Reload state before each iteration.  We expect it to change each time.
-            voucher_obj = self.store.get(voucher)
+                # Reload state before each iteration.  We expect it to change each time.
+                voucher_obj = self.store.get(voucher)
 
-            succeeded = await self._perform_redeem(voucher_obj, counter, tokens)
+                succeeded = await self._perform_redeem(voucher_obj, counter, tokens)
+            except:
+                # The store let us down.  If it has the voucher at all then
+                # redemption must be tried again later.
+                if known:
+                    f = Failure()  # type: ignore[no-untyped-call]
+                    self._final_redeem_error(voucher, f)
+                raise
             if not succeeded:
                 self._log.info(
                     "Temporarily suspending redemption of {voucher} after non-success result.",
@@ -1062,10 +1082,7 @@ class PaymentController(object):
                 reason=reason.value,
                 voucher=voucher,
             )
-            self._error[voucher] = model_Error(
-                finished=self.store.now(),
-                details=reason.getErrorMessage(),
-            )
+            self._set_error(voucher, reason)
 
     def _final_redeem_error(self, voucher: bytes, reason: Failure) -> None:
         self._log.failure(
@@ -1073,6 +1090,13 @@ class PaymentController(object):
             reason,
             voucher=voucher,
         )
+        self._set_error(voucher, reason)
+
+    def _set_error(self, voucher: bytes, reason: Failure) -> None:
+        self._error[voucher] = model_Error(
+            finished=self.store.now(),
+            details=reason.getErrorMessage(),
+        )
 
     def get_voucher(self, number: bytes) -> Voucher:
         return self.incorporate_transient_state(
-- 
2.43.0


From d73b182cf480ca19fff9283b0cee183f7c6c5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 05/39] fix: report the outcome of the latest redemption
 attempt, not of an earlier one

---
 src/_zkapauthorizer/controller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index b052efe..406393a 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -1024,6 +1024,9 @@ class PaymentController(object):
                 started=self.store.now(),
                 counter=voucher.state.counter,
             )
+            # The outcome of earlier attempts is now out of date.
+            self._error.pop(voucher.number, None)
+            self._unpaid.pop(voucher.number, None)
             result = await self.redeemer.redeemWithCounter(
                 voucher, counter, random_tokens
             )
@@ -1093,6 +1096,7 @@ class PaymentController(object):
         self._set_error(voucher, reason)
 
     def _set_error(self, voucher: bytes, reason: Failure) -> None:
+        self._unpaid.pop(voucher, None)
         self._error[voucher] = model_Error(
             finished=self.store.now(),
             details=reason.getErrorMessage(),
-- 
2.43.0


From 49aae5c73b61de46b611b415e100c68cab9084d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 06/39] fix: do not answer that a voucher was accepted when it
 could not be stored

---
 src/_zkapauthorizer/resource.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 5a1b892..f663dba 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -697,7 +697,24 @@ class _VoucherCollection(Resource):
         self._log.info(
             "Accepting a voucher ({voucher}) for redemption.", voucher=voucher
         )
-        Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        failures: list[Failure] = []
+
+        def failed(reason: Failure) -> None:
+            self._log.failure(
+                "Processing a voucher ({voucher}) failed.", reason, voucher=voucher
+            )
+            failures.append(reason)
+
+        d = Deferred.fromCoroutine(self._controller.redeem(voucher.encode("ascii")))
+        d.addErrback(failed)
+        if failures:
+            # The voucher was not accepted for processing, do not claim that
+            # it was.
+            return ErrorPage(  # type: ignore[no-untyped-call,no-any-return]
+                INTERNAL_SERVER_ERROR,
+                b"Internal Server Error",
+                b"the voucher could not be accepted",
+            ).render(request)
         return b""
 
     def render_GET(self, request: IRequest) -> bytes:
-- 
2.43.0


From e660085799cea5c5ef6883757fb0b71d111c2bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 07/39] fix: answer a voucher number which is not UTF-8 as a
 bad request

---
 src/_zkapauthorizer/resource.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index f663dba..94b7ea2 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -729,7 +729,10 @@ class _VoucherCollection(Resource):
         )
 
     def getChild(self, segment: bytes, request: IRequest) -> IResource:
-        voucher_str = segment.decode("utf-8")
+        try:
+            voucher_str = segment.decode("utf-8")
+        except UnicodeDecodeError:
+            return bad_request()
         if not is_syntactic_voucher(voucher_str):
             return bad_request()
         try:
-- 
2.43.0


From 7a263bd3fabe974180c50ac31fa5cfc053db603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 08/39] fix: replay event stream arguments as the tuple which
 cursors require

---
 src/_zkapauthorizer/recover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 3081636..6fde6aa 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -260,7 +260,7 @@ def recover_event_stream(event_stream: EventStream, cursor: Cursor) -> None:
     """
     for change in event_stream.changes:
         if change.statement not in ("BEGIN TRANSACTION;", "COMMIT;"):
-            cursor.execute(change.statement, change.arguments)
+            cursor.execute(change.statement, tuple(change.arguments))
 
 
 def recover_snapshot(statements: Iterator[str], cursor: Cursor) -> None:
-- 
2.43.0


From fa52e43914d978c3157a2ebee6909ebd00139f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 09/39] fix: on recovery apply no change which the snapshot or
 another event stream covers

---
 src/_zkapauthorizer/recover.py | 43 +++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 6fde6aa..c6e95ec 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -224,8 +224,49 @@ def recover(
     streams against the given cursor.
     """
     recover_snapshot(statements_from_snapshot(snapshot), cursor)
+    last_sequence = snapshot_sequence(cursor)
     for event_stream in sorted_event_streams(load_event_streams(event_stream_data)):
-        recover_event_stream(event_stream, cursor)
+        # The snapshot may already cover some or all of an event stream and
+        # event streams may overlap if replication was ever interrupted.  No
+        # change must be applied twice.
+        recover_event_stream(
+            EventStream(
+                changes=[
+                    change
+                    for change in event_stream.changes
+                    if change.sequence > last_sequence
+                ]
+            ),
+            cursor,
+        )
+        highest = event_stream.highest_sequence()
+        assert highest is not None
+        last_sequence = max(last_sequence, highest)
+
+
+def snapshot_sequence(cursor: Cursor) -> int:
+    """
+    Get the sequence number of the last change which is part of the snapshot
+    just recovered using the given cursor.
+    """
+    cursor.execute(
+        """
+        SELECT [name] FROM [sqlite_master] WHERE [name] IN ('sqlite_sequence', 'event-stream')
+        """,
+        (),
+    )
+    if len(cursor.fetchall()) < 2:
+        # The snapshot is from before there were event streams.
+        return 0
+    cursor.execute(
+        "SELECT [seq] FROM [sqlite_sequence] WHERE [name] = 'event-stream'", ()
+    )
+    rows = cursor.fetchall()
+    if len(rows) == 0:
+        return 0
+    (sequence,) = rows[0]
+    assert isinstance(sequence, int)
+    return sequence
 
 
 def sorted_event_streams(event_streams: Iterable[EventStream]) -> list[EventStream]:
-- 
2.43.0


From 4bee914be251b782e5494a117eb7c99dd4cfd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 10/39] fix: record changes for replication in the transaction
 which makes them and not at all if it fails

---
 src/_zkapauthorizer/replicate.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 94383f7..93292e7 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -61,6 +61,7 @@ __all__ = [
 
 import os
 import re
+import sys
 from enum import Enum
 from io import BytesIO
 from sqlite3 import Connection as _SQLite3Connection
@@ -444,17 +445,22 @@ class _ReplicationCapableConnection:
         exc_value: Optional[BaseException],
         exc_tb: Optional[Any],
     ) -> bool:
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        post_txn_fns: list[Callable[[], None]] = []
         if exc_type is None:
-            # There was no exception, signal observers that a change has been
-            # committed.
-            post_txn_fns: list[Callable[[], None]] = []
-            with self._conn:
-                curse = self._conn.cursor()
-                curse.execute("BEGIN IMMEDIATE TRANSACTION")
-                post_txn_fns.extend(self._maybe_signal_observers(curse))
-            for f in post_txn_fns:
-                f()
+            # There was no exception, signal observers of the changes about to
+            # be committed.  Whatever they write is part of the very same
+            # transaction.
+            try:
+                post_txn_fns.extend(self._maybe_signal_observers(self._conn.cursor()))
+            except BaseException:
+                self._conn.__exit__(*sys.exc_info())
+                raise
+        else:
+            # The changes are not going to happen.
+            self._mutations = list()
+        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        for f in post_txn_fns:
+            f()
         # Respect the underlying propagation decision.
         return propagate
 
-- 
2.43.0


From 4f4cd228283b300d2e273821979d62bbd54676f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 11/39] fix: do not replicate which tokens the running process
 has in use

---
 src/_zkapauthorizer/model.py     | 86 +++++++++++++++++---------------
 src/_zkapauthorizer/replicate.py | 39 ++++++++++++++-
 2 files changed, 82 insertions(+), 43 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index 47fa3a1..a1168b8 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -711,12 +711,13 @@ class VoucherStore(ConnectionHaver):
         if len(texts) < count:
             raise NotEnoughTokens()
 
-        cursor.executemany(
-            """
-            INSERT INTO [in-use] VALUES (?)
-            """,
-            texts,
-        )
+        with cursor.process_local():
+            cursor.executemany(
+                """
+                INSERT INTO [in-use] VALUES (?)
+                """,
+                texts,
+            )
         tokens = []
         for (t,) in texts:
             assert isinstance(t, str)
@@ -780,13 +781,14 @@ class VoucherStore(ConnectionHaver):
                 (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
             ),
         )
-        cursor.execute(
-            """
-            DELETE FROM [in-use]
-            WHERE [unblinded-token] IN [to-discard]
-            """,
-            (),
-        )
+        with cursor.process_local():
+            cursor.execute(
+                """
+                DELETE FROM [in-use]
+                WHERE [unblinded-token] IN [to-discard]
+                """,
+                (),
+            )
         cursor.execute(
             """
             DELETE FROM [unblinded-tokens]
@@ -829,13 +831,14 @@ class VoucherStore(ConnectionHaver):
                 for token in unblinded_tokens
             ),
         )
-        cursor.execute(
-            """
-            DELETE FROM [in-use]
-            WHERE [unblinded-token] IN (SELECT [token] FROM [invalid-unblinded-tokens])
-            """,
-            (),
-        )
+        with cursor.process_local():
+            cursor.execute(
+                """
+                DELETE FROM [in-use]
+                WHERE [unblinded-token] IN (SELECT [token] FROM [invalid-unblinded-tokens])
+                """,
+                (),
+            )
         cursor.execute(
             """
             DELETE FROM [unblinded-tokens]
@@ -856,27 +859,28 @@ class VoucherStore(ConnectionHaver):
         This is useful if a spending operation has failed with a transient
         error.
         """
-        cursor.executemany(
-            """
-            INSERT INTO [to-reset] VALUES (?)
-            """,
-            list(
-                (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
-            ),
-        )
-        cursor.execute(
-            """
-            DELETE FROM [in-use]
-            WHERE [unblinded-token] IN [to-reset]
-            """,
-            (),
-        )
-        cursor.execute(
-            """
-            DELETE FROM [to-reset]
-            """,
-            (),
-        )
+        with cursor.process_local():
+            cursor.executemany(
+                """
+                INSERT INTO [to-reset] VALUES (?)
+                """,
+                list(
+                    (token.unblinded_token.decode("ascii"),) for token in unblinded_tokens
+                ),
+            )
+            cursor.execute(
+                """
+                DELETE FROM [in-use]
+                WHERE [unblinded-token] IN [to-reset]
+                """,
+                (),
+            )
+            cursor.execute(
+                """
+                DELETE FROM [to-reset]
+                """,
+                (),
+            )
 
     def start_lease_maintenance(self) -> LeaseMaintenance:
         """
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 93292e7..966129c 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -365,6 +365,23 @@ class _Important:
         return None
 
 
+@define
+class _ProcessLocal:
+    """
+    A context-manager to set and unset the ._process_local flag on a
+    _ReplicationCapableCursor
+    """
+
+    _replication_cursor: _ReplicationCapableCursor
+
+    def __enter__(self) -> None:
+        self._replication_cursor._process_local = True
+
+    def __exit__(self, exc_type: type, exc_val: Exception, exc_tb: Any) -> None:
+        self._replication_cursor._process_local = False
+        return None
+
+
 def with_replication(
     connection: _SQLite3Connection, enable_replication: bool
 ) -> _ReplicationCapableConnection:
@@ -508,6 +525,9 @@ class _ReplicationCapableCursor:
     # the observers and interpreted as being "important data that the
     # user will be interested in preserving")
     _important: bool = field(init=False, default=False)
+    # true while statements only concern the state of this process and so must
+    # not be replicated
+    _process_local: bool = field(init=False, default=False)
 
     @property
     def lastrowid(self) -> Optional[int]:
@@ -530,7 +550,7 @@ class _ReplicationCapableCursor:
         """
         assert isinstance(row, tuple)
         self._cursor.execute(statement, row)
-        if self._connection._replicating and statement_mutates(statement):
+        if self._should_record(statement):
             # note that this interface is for multiple statements, so
             # we turn our single row into a one-tuple
             self._connection._mutations.append((self._important, statement, (row,)))
@@ -547,10 +567,25 @@ class _ReplicationCapableCursor:
 
     def executemany(self, statement: str, rows: Iterable[Parameters]) -> Cursor:
         self._cursor.executemany(statement, rows)
-        if self._connection._replicating and statement_mutates(statement):
+        if self._should_record(statement):
             self._connection._mutations.append((self._important, statement, rows))
         return self
 
+    def _should_record(self, statement: str) -> bool:
+        return (
+            self._connection._replicating
+            and not self._process_local
+            and statement_mutates(statement)
+        )
+
+    def process_local(self) -> _ProcessLocal:
+        """
+        Create a new context-manager that -- while active -- keeps statements
+        from being recorded for replication.  It is for changes to temporary
+        tables with state which has no meaning outside of this process.
+        """
+        return _ProcessLocal(self)
+
     def important(self) -> _Important:
         """
         Create a new context-manager that -- while active -- sets the
-- 
2.43.0


From 92c2dff9423f9b443106e397a095017501bf2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 12/39] fix: do not prune a first change recorded during the
 upload of a snapshot

---
 src/_zkapauthorizer/replicate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 966129c..a1f80b0 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -980,7 +980,10 @@ class _ReplicationService(Service):
         from the replica that are no longer relevant.
         """
         # extract sequence-number and snapshot data
-        seqnum = 1
+        #
+        # if nothing was ever recorded then the first event recorded while
+        # this upload is in progress will be number 1 and it is not covered.
+        seqnum = 0
         rows = (
             self._connection.cursor()
             .execute(
-- 
2.43.0


From 47bb7fb935b0ca7ed09ffd28c7a652debc9ceb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 13/39] fix: keep replicating after a replication job fails

---
 src/_zkapauthorizer/_plugin.py   |  2 +-
 src/_zkapauthorizer/replicate.py | 54 ++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index 667045c..b42e587 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -232,7 +232,7 @@ class ZKAPAuthorizer(object):
             client.get_config().encoding,
             10,
         )
-        svc = replication_service(replicated_conn, replica, cost)
+        svc = replication_service(replicated_conn, replica, cost, self.reactor)
         svc.setServiceParent(self._service)  # type: ignore[no-untyped-call]
 
     def _get_redeemer(
diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index a1f80b0..1fc477a 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -95,6 +95,8 @@ from tahoe_capabilities import (
 )
 from twisted.application.service import IService, Service
 from twisted.internet.defer import CancelledError, Deferred, DeferredQueue, succeed
+from twisted.internet.interfaces import IReactorTime
+from twisted.internet.task import deferLater
 from twisted.logger import Logger
 from twisted.python.filepath import FilePath
 from twisted.python.lockfile import FilesystemLock
@@ -133,6 +135,9 @@ class SnapshotPolicy(Protocol):
 
 SNAPSHOT_NAME = "snapshot"
 
+# The number of seconds to wait after a replication job failed.
+RETRY_DELAY = 60.0
+
 
 @frozen
 class Replica:
@@ -867,6 +872,7 @@ class _ReplicationService(Service):
     _connection: _ReplicationCapableConnection = field()
     _replica: Replica
     _snapshot_policy: SnapshotPolicy
+    _reactor: Optional[IReactorTime] = None
     _replicating: Optional[Deferred[None]] = field(init=False, default=None)
 
     _changes: AccumulatedChanges = AccumulatedChanges.no_changes()
@@ -948,16 +954,42 @@ class _ReplicationService(Service):
         """
         while True:
             job = await self._jobs.get()
-            if job == ReplicationJob.event_stream:
-                await self._do_one_event_upload()
-            elif job == ReplicationJob.snapshot:
-                await self._do_one_snapshot_upload()
-            elif job == ReplicationJob.consider_snapshot:
-                await self._do_consider_snapshot()
-            elif job == ReplicationJob.startup:
-                await self._do_startup()
-            else:
-                raise Exception("internal error")  # pragma: nocover
+            try:
+                await self._do_job(job)
+            except Exception:
+                if not self.running:
+                    # This is (the result of) the cancel in stopService.
+                    raise
+                # Whatever is not replicated now must be replicated later.
+                # Try it again, after any jobs which can do better.
+                self._logger.failure("replication job failed, will retry")
+                self.queue_job(job)
+                await deferLater(self._get_reactor(), RETRY_DELAY)
+
+    async def _do_job(self, job: ReplicationJob) -> None:
+        """
+        Do the work required by one job.
+        """
+        if job == ReplicationJob.event_stream:
+            await self._do_one_event_upload()
+        elif job == ReplicationJob.snapshot:
+            await self._do_one_snapshot_upload()
+        elif job == ReplicationJob.consider_snapshot:
+            await self._do_consider_snapshot()
+        elif job == ReplicationJob.startup:
+            await self._do_startup()
+        else:
+            raise Exception("internal error")  # pragma: nocover
+
+    def _get_reactor(self) -> IReactorTime:
+        """
+        Get the reactor with which to wait before another try.
+        """
+        if self._reactor is None:
+            from twisted.internet import reactor
+
+            return IReactorTime(reactor)
+        return self._reactor
 
     async def _do_startup(self) -> None:
         """
@@ -1153,6 +1185,7 @@ def replication_service(
     replicated_connection: _ReplicationCapableConnection,
     replica: Replica,
     snapshot_policy: SnapshotPolicy,
+    reactor: Optional[IReactorTime] = None,
 ) -> IService:
     """
     Return a service which implements the replication process documented in
@@ -1162,4 +1195,5 @@ def replication_service(
         connection=replicated_connection,
         replica=replica,
         snapshot_policy=snapshot_policy,
+        reactor=reactor,
     )
-- 
2.43.0


From ad6000bb90daf8f712d9233666d8accedf136ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 14/39] fix: upgrade the database schema completely or not at
 all

---
 src/_zkapauthorizer/model.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/_zkapauthorizer/model.py b/src/_zkapauthorizer/model.py
index a1168b8..d06b767 100644
--- a/src/_zkapauthorizer/model.py
+++ b/src/_zkapauthorizer/model.py
@@ -152,17 +152,24 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
     Temporary tables required by application code will also be created.
     """
     cursor = conn.cursor()
+    # Only schema upgrades are changes to replicate.  Everything else here only
+    # concerns this connection.
+    local_cursor = conn._conn.cursor()
 
     with conn:
         # Enforcement of foreign key constraints is off by default.  It must
         # be enabled on a per-connection basis.  This is a helpful feature to
         # ensure consistency so we want it enforced and we use it in our
         # schema.
-        cursor.execute("PRAGMA foreign_keys = ON", ())
+        local_cursor.execute("PRAGMA foreign_keys = ON", ())
+
+        # If anything goes wrong (or the process dies) there must not be a
+        # partially upgraded database.
+        local_cursor.execute("BEGIN IMMEDIATE TRANSACTION", ())
 
         # Upgrade the database to the most recent version of the schema.  That
         # is the only schema the Python code will actually work against.
-        actual_version = get_schema_version(cursor)
+        actual_version = get_schema_version(local_cursor)
         schema_upgrades = list(get_schema_upgrades(actual_version))
         run_schema_upgrades(iter(schema_upgrades), cursor)
 
@@ -170,7 +177,7 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
         # this connection.  These are outside of the schema because they are not
         # persistent.  We can change them any time we like without worrying about
         # upgrade logic because we re-create them on every connection.
-        cursor.execute(
+        local_cursor.execute(
             """
             -- Track tokens in use by the process holding this connection.
             CREATE TEMPORARY TABLE [in-use] (
@@ -185,7 +192,7 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
             """,
             (),
         )
-        cursor.execute(
+        local_cursor.execute(
             """
             -- Track tokens that we want to remove from the database.  Mainly just
             -- works around the awkward DB-API interface for dealing with deleting
@@ -196,7 +203,7 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
             """,
             (),
         )
-        cursor.execute(
+        local_cursor.execute(
             """
             -- Track tokens that we want to remove from the [in-use] set.  Similar
             -- to [to-discard].
@@ -207,6 +214,7 @@ def initialize_database(conn: _ReplicationCapableConnection) -> None:
             (),
         )
 
+    local_cursor.close()
     cursor.close()
 
 
-- 
2.43.0


From a72d75dd1e1c34eca3aa66289f58bc5631061d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 15/39] fix: record changes made before the replication service
 has been started

---
 src/_zkapauthorizer/replicate.py | 35 +++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 1fc477a..c6f5d15 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -500,6 +500,10 @@ class _ReplicationCapableConnection:
             self._mutations = list()
             for ob in self._observers:
                 yield ob(cursor, to_signal)
+            if not self._observers:
+                # There is no replication service yet.  It will find these
+                # changes in the event log when there is.
+                add_events(cursor, *events_from_mutations(to_signal))
 
     def cursor(self, factory: Optional[type] = None) -> _ReplicationCapableCursor:
         """
@@ -749,6 +753,26 @@ def add_events(
     )
 
 
+def events_from_mutations(
+    mutations: Iterable[Mutation],
+) -> tuple[list[tuple[str, Sequence[SQLType]]], bool]:
+    """
+    Get the events which represent some mutations and whether any of them is
+    important.
+    """
+    # A mutation contains one statement and one or more rows of arguments
+    # that go with it.  We're going to generate an event per
+    # statement/argument pair - so "unroll" those rows and pair each
+    # individual argument tuple with its statement.
+    events: list[tuple[str, Sequence[SQLType]]] = []
+    any_important = False
+    for important, sql, manyargs in mutations:
+        any_important = any_important or important
+        for args in manyargs:
+            events.append((sql, args))
+    return events, any_important
+
+
 def get_events(conn: _SQLite3Connection) -> EventStream:
     """
     Return all events currently in our event-log.
@@ -1139,16 +1163,7 @@ class _ReplicationService(Service):
             immediate upload; statement is the SQL statement; and args
             are the arguments for the SQL.
         """
-        # A mutation contains one statement and one or more rows of arguments
-        # that go with it.  We're going to generate an event per
-        # statement/argument pair - so "unroll" those rows and pair each
-        # individual argument tuple with its statement.
-        events = []
-        any_important = False
-        for important, sql, manyargs in all_changes:
-            any_important = any_important or important
-            for args in manyargs:
-                events.append((sql, args))
+        events, any_important = events_from_mutations(all_changes)
         add_events(unobserved_cursor, events, any_important)
         changes = AccumulatedChanges.from_statements(any_important, events)
         self._changes = self._changes + changes
-- 
2.43.0


From 1459df87edb09b21c2a762317afcdd6e973d6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 16/39] fix: record all rows of a bulk statement given as an
 iterator

---
 src/_zkapauthorizer/replicate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index c6f5d15..6298d62 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -575,6 +575,8 @@ class _ReplicationCapableCursor:
         return cast(tuple[SQLType], self._cursor.fetchone())
 
     def executemany(self, statement: str, rows: Iterable[Parameters]) -> Cursor:
+        # The rows are needed twice but the iterable may only work once.
+        rows = list(rows)
         self._cursor.executemany(statement, rows)
         if self._should_record(statement):
             self._connection._mutations.append((self._important, statement, rows))
-- 
2.43.0


From a76e69ac7626336ea488825e714e4c6cbb2bf940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 17/39] fix: import a recovered replica completely or not at
 all

---
 src/_zkapauthorizer/recover.py  | 23 ++++++++++++++++++++++-
 src/_zkapauthorizer/resource.py | 20 ++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index c6e95ec..661db70 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -120,6 +120,27 @@ class StatefulRecoverer:
         :param cursor: A database cursor which can be used to populate the
             database with recovered state.
         """
+
+        async def with_cursor(populate: Callable[[Cursor], None]) -> None:
+            populate(cursor)
+
+        await self.recover_with(download, with_cursor)
+
+    async def recover_with(
+        self,
+        download: Downloader,
+        transact: Callable[[Callable[[Cursor], None]], Awaitable[None]],
+    ) -> None:
+        """
+        Begin the recovery process.
+
+        :param downloader: A callable which can be used to retrieve a replica.
+
+        :param transact: A function which calls the function it is given with
+            a database cursor which can be used to populate the database with
+            recovered state and then makes the recovered state persistent.  If
+            it fails then the database is as it was before.
+        """
         if self._state.stage != RecoveryStages.inactive:
             return
 
@@ -135,7 +156,7 @@ class StatefulRecoverer:
             return
 
         try:
-            recover(snapshot, event_streams, cursor)
+            await transact(partial(recover, snapshot, event_streams))
         except Exception as e:
             self._set_state(
                 RecoveryState(stage=RecoveryStages.import_failed, failure_reason=str(e))
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 94b7ea2..73f12a6 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -22,7 +22,6 @@ In the future it should also allow users to read statistics about token usage.
 """
 
 from collections.abc import Awaitable
-from functools import partial
 from json import dumps
 from typing import Callable, Optional, Union, cast
 
@@ -59,6 +58,7 @@ from .pricecalculator import PriceCalculator
 from .private import create_private_tree
 from .recover import Downloader, RecoveryStages, RecoveryState, StatefulRecoverer
 from .replicate import ReplicationAlreadySetup
+from .sql import Cursor
 from .storage_common import (
     get_configured_allowed_public_keys,
     get_configured_pass_value,
@@ -427,10 +427,22 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
         # If these things succeed then we will have started recovery and
         # generated a response to the request.
         downloader = self.get_downloader(cap)
-        await store.call_if_empty(
-            partial(self.recoverer.recover, downloader)  # cursor added by call_if_empty
-        )
+
+        async def nothing(cursor: Cursor) -> None:
+            pass
+
         # let all exceptions (including NotEmpty) out
+        await store.call_if_empty(nothing)
+
+        async def transact(populate: Callable[[Cursor], None]) -> None:
+            async def f(cursor: Cursor) -> None:
+                populate(cursor)
+
+            await store.call_if_empty(f)
+
+        # The download may take long.  Do not keep a transaction open for it
+        # but check again that the database is (still) empty when it is done.
+        await self.recoverer.recover_with(downloader, transact)
 
 
 def authorizationless_resource_tree(
-- 
2.43.0


From d804946ac86fe2465dc7bee4f38e0aae166c79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:19 +0000
Subject: [PATCH 18/39] fix: upgrade the schema of a recovered replica which an
 earlier version wrote

---
 src/_zkapauthorizer/recover.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_zkapauthorizer/recover.py b/src/_zkapauthorizer/recover.py
index 661db70..626553d 100644
--- a/src/_zkapauthorizer/recover.py
+++ b/src/_zkapauthorizer/recover.py
@@ -23,6 +23,7 @@ from attrs import define, field
 from tahoe_capabilities import DirectoryReadCapability
 
 from .replicate import SNAPSHOT_NAME, EventStream, statements_to_snapshot
+from .schema import get_schema_upgrades, get_schema_version, run_schema_upgrades
 from .sql import Cursor, escape_identifier
 from .tahoe import DataProvider, FileNode, ITahoeClient, download_child
 
@@ -264,6 +265,9 @@ def recover(
         assert highest is not None
         last_sequence = max(last_sequence, highest)
 
+    # The replica may have been written by an earlier version.
+    run_schema_upgrades(get_schema_upgrades(get_schema_version(cursor)), cursor)
+
 
 def snapshot_sequence(cursor: Cursor) -> int:
     """
-- 
2.43.0


From afe304c65925fde7a4349c76d70a5935e08bfe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 19/39] fix: close the websocket of clients which ask for
 another or a finished recovery

---
 src/_zkapauthorizer/resource.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 73f12a6..1b576a1 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -367,13 +367,13 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
 
         Otherwise, error.
         """
-        self.clients.append(client)
         if self.recovering_d is None:
+            self.clients.append(client)
             self.recovering_cap = cap
             self.recovering_d = Deferred.fromCoroutine(self._recover(self.store, cap))
 
             def disconnect_clients() -> None:
-                for client in self.clients:
+                for client in list(self.clients):
                     client.sendClose()
 
             def err(f: Failure) -> None:
@@ -396,7 +396,7 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             self.recovering_d.addCallbacks(happy, err)
 
         elif self.recovering_cap != cap:
-            self.sendClose(
+            client.sendClose(
                 code=4000, reason="Ongoing recovery with different capability"
             )
 
@@ -405,8 +405,12 @@ class RecoverFactory(WebSocketServerFactory):  # type: ignore[misc]
             # capability, so be idempotent by acting the same as if this
             # was the first client. That means sending this client all the
             # status updates we've sent so far.
+            self.clients.append(client)
             for update in self.sent_updates:
                 client.sendMessage(update)
+            if self.recovering_d.called:
+                # There will be no further updates.
+                client.sendClose()
 
     def buildProtocol(self, addr: object) -> RecoverProtocol:
         """
-- 
2.43.0


From 90416cfd7630cea8d6c97cb787a906251d0fbd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 20/39] fix: report the configured replica when replication is
 already set up

---
 src/_zkapauthorizer/_plugin.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_plugin.py b/src/_zkapauthorizer/_plugin.py
index b42e587..08d2ea6 100644
--- a/src/_zkapauthorizer/_plugin.py
+++ b/src/_zkapauthorizer/_plugin.py
@@ -38,7 +38,10 @@ from challenge_bypass_ristretto import PublicKey, SigningKey
 from eliot import start_action
 from foolscap.ipb import IRemoteReference
 from prometheus_client import CollectorRegistry, write_to_textfile
-from tahoe_capabilities import DirectoryReadCapability
+from tahoe_capabilities import (
+    DirectoryReadCapability,
+    danger_real_capability_string,
+)
 from twisted.application.service import IService, MultiService
 from twisted.internet import task
 from twisted.internet.defer import Deferred, succeed
@@ -62,6 +65,7 @@ from .model import VoucherStore, aware_now
 from .model import open_database as _open_database
 from .recover import get_tahoe_lafs_downloader
 from .replicate import (
+    ReplicationAlreadySetup,
     _ReplicationCapableConnection,
     get_replica_rwcap,
     get_tahoe_lafs_direntry_replica,
@@ -326,7 +330,12 @@ class ZKAPAuthorizer(object):
 
         async def setup_replication() -> DirectoryReadCapability:
             # Setup replication
-            replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            try:
+                replica_ro = await setup_tahoe_lafs_replication(tahoe)
+            except ReplicationAlreadySetup:
+                # The exception does not have the real capability.
+                configured = get_replica_rwcap(node_config).reader
+                raise ReplicationAlreadySetup(danger_real_capability_string(configured))
             # And then turn replication on for the database connection already
             # in use.
             self._add_replication_service(store._connection, node_config)
-- 
2.43.0


From c1233a23deff728c1dd8a97c60b9bca88784c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 21/39] fix: visit each node once for lease maintenance and no
 literals

---
 src/_zkapauthorizer/lease_maintenance.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 0746a33..c10e32d 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -94,10 +94,18 @@ async def visit_storage_indexes(
                 )
             )
 
+    # There may be many paths to a node, including from itself.
+    visited: set[StorageIndex] = set()
     stack = root_nodes[:]
     while stack:
         elem = stack.pop()
-        visit(elem.get_storage_index())
+        storage_index = elem.get_storage_index()
+        # Literals have no storage index and no shares.
+        if storage_index is not None:
+            if storage_index in visited:
+                continue
+            visited.add(storage_index)
+            visit(storage_index)
         if IDirectoryNode.providedBy(elem):
             children = await elem.list()
             # Produce consistent results by forcing some consistent ordering
-- 
2.43.0


From de359d6893bd53fff55c51815e1161d0c8919e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:22 +0000
Subject: [PATCH 22/39] fix: renew leases although a directory, a server or
 another renewal fails

---
 src/_zkapauthorizer/lease_maintenance.py | 35 ++++++++++++++++--------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index c10e32d..de3967b 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -107,7 +107,12 @@ async def visit_storage_indexes(
             visited.add(storage_index)
             visit(storage_index)
         if IDirectoryNode.providedBy(elem):
-            children = await elem.list()
+            try:
+                children = await elem.list()
+            except Exception:
+                # Whatever else can be reached still matters.
+                err(Failure(), "Listing a directory for lease maintenance")  # type: ignore[no-untyped-call]
+                continue
             # Produce consistent results by forcing some consistent ordering
             # here.  This will sort by name.
             stable_children = sorted(children.items())
@@ -179,15 +184,19 @@ async def renew_leases(
 
     for server in servers:
         # Consider parallelizing this.
-        await renew_leases_on_server(
-            min_lease_remaining,
-            renewal_secret,
-            cancel_secret,
-            storage_indexes,
-            server,
-            activity,
-            now(),
-        )
+        try:
+            await renew_leases_on_server(
+                min_lease_remaining,
+                renewal_secret,
+                cancel_secret,
+                storage_indexes,
+                server,
+                activity,
+                now(),
+            )
+        except Exception:
+            # The leases on the other servers must still be renewed.
+            err(Failure(), "Lease maintenance on one storage server")  # type: ignore[no-untyped-call]
 
     activity.finish()
 
@@ -245,7 +254,11 @@ async def renew_leases_on_server(
         # whether to renew leases at this storage index or not based on that.
         most_endangered = soonest_expiration(stat_dict.values())
         if needs_lease_renew(min_lease_remaining, most_endangered, now):
-            await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            try:
+                await renew_lease(renewal_secret, cancel_secret, storage_index, server)
+            except Exception:
+                # The other leases must still be renewed.
+                err(Failure(), "Lease renewal")  # type: ignore[no-untyped-call]
 
 
 def soonest_expiration(stats: Iterable[ShareStat]) -> ShareStat:
-- 
2.43.0


From 831f9eb54da0631a1a750a901aeaf1100995c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 23/39] fix: let lease maintenance be stopped while it is under
 way

---
 src/_zkapauthorizer/lease_maintenance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index de3967b..a807381 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -390,6 +390,7 @@ class _FuzzyTimerService(Service, Generic[_C]):
         """
         Run the operation once and then schedule it to run again.
         """
+        self._call = None
 
         async def go() -> None:
             try:
@@ -403,8 +404,11 @@ class _FuzzyTimerService(Service, Generic[_C]):
 
     def _schedule(self) -> None:
         """
-        Schedule the next run of the operation.
+        Schedule the next run of the operation unless the service was stopped
+        during the last one.
         """
+        if not self.running or self._call is not None:
+            return
         self._call = self.reactor.callLater(
             self.sample_interval_distribution().total_seconds(),
             self._iterate,
-- 
2.43.0


From 3629ec158da71174950e56cf7cf2ef3d7c27c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 24/39] fix: keep scheduling lease maintenance if the interval
 range exceeds twice the mean

---
 src/_zkapauthorizer/lease_maintenance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index a807381..058ee31 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -448,12 +448,14 @@ def lease_maintenance_service(
     halfrange = interval_range // 2
 
     def sample_interval_distribution() -> timedelta:
-        return timedelta(
+        interval = timedelta(
             seconds=random.uniform(
                 (interval_mean - halfrange).total_seconds(),
                 (interval_mean + halfrange).total_seconds(),
             ),
         )
+        # The range may be more than twice the mean.
+        return max(interval, timedelta(0))
 
     # Rather than an all-or-nothing last-run time we probably eventually want
     # to have a more comprehensive record of the state when we were last
-- 
2.43.0


From efccdf30cd13b2e8fcffa6ae47f2fad2a6320dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 25/39] fix: provide the lease seed without which lease
 maintenance renews no lease

---
 src/_zkapauthorizer/_storage_client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index 6e88466..f96f613 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -24,7 +24,9 @@ from functools import partial, wraps
 from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
 
 from allmydata.interfaces import IStorageServer
+from allmydata.util.base32 import a2b
 from attrs import Factory, define, field
+from foolscap.furl import decode_furl
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
 from twisted.internet.defer import Deferred
@@ -417,6 +419,16 @@ class ZKAPAuthorizerStorageClient(object):
             )
         return rref
 
+    def get_lease_seed(self) -> bytes:
+        """
+        Get the seed for secrets of leases held on this storage server: the tub
+        identifier of the server, as for ``IServer.get_lease_seed``.
+        """
+        tub_id, _, _ = decode_furl(self._rref().tracker.getURL())
+        seed = a2b(tub_id.lower().encode("ascii"))
+        assert isinstance(seed, bytes)
+        return seed
+
     @with_rref
     async def get_version(self, rref: IRemoteReference) -> dict[bytes, Any]:
         unknown_version = await rref.callRemote(  # type: ignore[no-untyped-call]
-- 
2.43.0


From dfcae178d44f734afefce301c72d73e8a5377b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 26/39] fix: convert the finish times of vouchers which an
 earlier version left naive

---
 src/_zkapauthorizer/schema.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index a4362b5..41d872a 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -277,4 +277,14 @@ _UPGRADES = {
         ALTER TABLE [event-stream] ADD COLUMN [serialized_arguments] TEXT DEFAULT X'80'
         """,
     ],
+    9: [
+        # The conversion of times to UTC in the upgrade from version 7 missed
+        # these values.  Vouchers finished since then already have times with
+        # a timezone marker.
+        """
+        UPDATE [vouchers]
+        SET [finished] = datetime([finished], "utc") || "+00:00"
+        WHERE [finished] NOT LIKE "%+__:__"
+        """,
+    ],
 }
-- 
2.43.0


From 743e50e0ce5f750ed694d65bd2978fadcaf3e014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 27/39] fix: keep tokens of partly redeemed vouchers spendable
 when upgrading the schema

---
 src/_zkapauthorizer/schema.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/_zkapauthorizer/schema.py b/src/_zkapauthorizer/schema.py
index 41d872a..451ed7b 100644
--- a/src/_zkapauthorizer/schema.py
+++ b/src/_zkapauthorizer/schema.py
@@ -186,12 +186,13 @@ _UPGRADES = {
         )
         """,
         """
-        -- Create one redemption group for every existing, redeemed voucher.
-        -- These tokens were probably *not* all redeemed in one group but
-        -- we've only preserved one public key for them so we can't do much
-        -- better than this.
+        -- Create one redemption group for every existing, redeemed voucher,
+        -- even if only a part of it has been redeemed so far.  These tokens
+        -- were probably *not* all redeemed in one group but we've only
+        -- preserved one public key for them so we can't do much better than
+        -- this.
         INSERT INTO [redemption-groups] ([voucher], [public-key], [spendable])
-            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed"
+            SELECT DISTINCT([number]), [public-key], 1 FROM [vouchers] WHERE [state] = "redeemed" OR [counter] > 0
         """,
         """
         -- Give each voucher a count of "sequestered" tokens.  Currently,
-- 
2.43.0


From 3a2b8940e3cedb86475c1c6d011765cc6d19de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 28/39] fix: roll back a transaction which cannot be committed

---
 src/_zkapauthorizer/replicate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/replicate.py b/src/_zkapauthorizer/replicate.py
index 6298d62..65df185 100644
--- a/src/_zkapauthorizer/replicate.py
+++ b/src/_zkapauthorizer/replicate.py
@@ -480,7 +480,13 @@ class _ReplicationCapableConnection:
         else:
             # The changes are not going to happen.
             self._mutations = list()
-        propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        try:
+            propagate = self._conn.__exit__(exc_type, exc_value, exc_tb)
+        except BaseException:
+            # The transaction could not be committed.  If it is left open then
+            # it locks the database and is in the way of the next one.
+            self._conn.rollback()
+            raise
         for f in post_txn_fns:
             f()
         # Respect the underlying propagation decision.
-- 
2.43.0


From 9a6d602b4f6ec55f7c7900b27cc46c662393d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 29/39] fix: refuse values which are not base64 where base64 is
 required

---
 src/_zkapauthorizer/validators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/validators.py b/src/_zkapauthorizer/validators.py
index 5546c35..6a2f1ce 100644
--- a/src/_zkapauthorizer/validators.py
+++ b/src/_zkapauthorizer/validators.py
@@ -150,13 +150,19 @@ positive_integer = bounded_integer(0)
 non_negative_integer = bounded_integer(-1)
 
 
+_to_urlsafe_alphabet = bytes.maketrans(b"+/", b"-_")
+
+
 def base64_bytes(length: int) -> ValidatorType[bytes]:
     def validator(inst: object, attr: Attribute[bytes], value: bytes) -> None:
         if not isinstance(value, bytes):
             raise ValueError(
                 f"{attr.name} must be bytes, instead it was {type(value)}",
             )
-        if not is_base64_encoded(urlsafe_b64decode):
+        try:
+            # Values of both alphabets are in use.
+            urlsafe_b64decode(value.translate(_to_urlsafe_alphabet))
+        except Exception:
             raise ValueError(
                 f"{attr.name} must be base64 encoded data",
             )
-- 
2.43.0


From 59ae3e1190903e34c1b73eb55f25bf70b075e448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 30/39] fix: do not reveal capabilities in the text of an error
 from the Tahoe-LAFS web interface

---
 src/_zkapauthorizer/tahoe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_zkapauthorizer/tahoe.py b/src/_zkapauthorizer/tahoe.py
index b5c4a88..cfd03aa 100644
--- a/src/_zkapauthorizer/tahoe.py
+++ b/src/_zkapauthorizer/tahoe.py
@@ -179,6 +179,11 @@ class TahoeAPIError(Exception):
     status: int
     body: str
 
+    def __attrs_post_init__(self) -> None:
+        # The base class remembers the arguments as they were given and would
+        # present the unscrubbed URL in the string form of the exception.
+        self.args = (self.method, self.url, self.status, self.body)
+
 
 class NotWriteableError(Exception):
     """
-- 
2.43.0


From e4247323a41971121939be8b69121124966bde9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 31/39] fix: recognise that a server rejected passes when it
 says so over Foolscap

---
 src/_zkapauthorizer/_storage_client.py | 49 ++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/_zkapauthorizer/_storage_client.py b/src/_zkapauthorizer/_storage_client.py
index f96f613..034d7a6 100644
--- a/src/_zkapauthorizer/_storage_client.py
+++ b/src/_zkapauthorizer/_storage_client.py
@@ -20,6 +20,7 @@ This is the client part of a storage access protocol.  The server part is
 implemented in ``_storage_server.py``.
 """
 
+import re
 from functools import partial, wraps
 from typing import Any, Awaitable, Callable, Optional, Protocol, TypeVar
 
@@ -29,6 +30,7 @@ from attrs import Factory, define, field
 from foolscap.furl import decode_furl
 from foolscap.ipb import IRemoteReference
 from foolscap.referenceable import RemoteReference
+from foolscap.tokens import RemoteException
 from twisted.internet.defer import Deferred
 from twisted.internet.interfaces import IReactorTime
 from twisted.python.reflect import namedAny
@@ -71,6 +73,46 @@ class IncorrectStorageServerReference(Exception):
     expected_name: str
 
 
+# The string form of ``MorePassesRequired``.  Foolscap limits the length of an
+# exception's string form so a long set of rejected passes may be cut off.
+_more_passes_required_pattern = re.compile(
+    r"MorePassesRequired\("
+    r"valid_count=(?P<valid_count>[0-9]+), "
+    r"required_count=(?P<required_count>[0-9]+), "
+    r"signature_check_failed=frozenset\((?:\{(?P<failed>[0-9, ]*)(?P<end>\}?))?"
+)
+
+
+def _get_more_passes_required(exc: Exception) -> Optional[MorePassesRequired]:
+    """
+    Interpret a failed remote call as a demand for more passes, if it is one.
+
+    Foolscap does not convey exceptions to the peer, only the name of their
+    type and their string form, and Tahoe-LAFS configures it to wrap these in
+    ``RemoteException``.
+
+    :return: The demand or ``None`` if the call failed for some other reason.
+    """
+    if isinstance(exc, MorePassesRequired):
+        return exc
+    if not (
+        isinstance(exc, RemoteException) and exc.failure.check(MorePassesRequired)
+    ):
+        return None
+    match = _more_passes_required_pattern.match(str(exc.failure.value))
+    if match is None:
+        return None
+    failed = (match["failed"] or "").split(",")
+    if not match["end"]:
+        # The last number may be missing some of its digits.
+        failed.pop()
+    return MorePassesRequired(
+        int(match["valid_count"]),
+        int(match["required_count"]),
+        frozenset(int(index) for index in failed if index.strip()),
+    )
+
+
 def invalidate_rejected_passes(
     passes: IPassGroup, more_passes_required: MorePassesRequired
 ) -> Optional[IPassGroup]:
@@ -161,10 +203,13 @@ async def call_with_passes_with_manual_spend(
             while True:
                 try:
                     result = await method(pass_group)
-                except MorePassesRequired as e:
+                except (MorePassesRequired, RemoteException) as e:
+                    more_passes_required = _get_more_passes_required(e)
+                    if more_passes_required is None:
+                        raise
                     okay_pass_group = invalidate_rejected_passes(
                         pass_group,
-                        e,
+                        more_passes_required,
                     )
                     if okay_pass_group is None:
                         raise
-- 
2.43.0


From a288beea8ed5bd1d75db697228ba263a88d1fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 32/39] fix: keep the constraint on the reply of remote methods
 which take passes

---
 src/_zkapauthorizer/foolscap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/foolscap.py b/src/_zkapauthorizer/foolscap.py
index f28b802..58c6a72 100644
--- a/src/_zkapauthorizer/foolscap.py
+++ b/src/_zkapauthorizer/foolscap.py
@@ -116,7 +116,10 @@ def add_arguments(
     """
     new_kwargs = dict(schema.argConstraints)
     new_kwargs.update(kwargs)
-    modified_schema = RemoteMethodSchema(**new_kwargs)  # type: ignore[no-untyped-call]
+    modified_schema = RemoteMethodSchema(  # type: ignore[no-untyped-call]
+        _response=schema.responseConstraint,
+        **new_kwargs,
+    )
     # Initialized from **new_kwargs, RemoteMethodSchema.argumentNames is in
     # some arbitrary, probably-incorrect order.  This breaks user code which
     # tries to use positional arguments.  Put them back in the order they were
-- 
2.43.0


From ec157b0a1c720875d1eac56a6691fa7a2cb30f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 33/39] fix: ignore whitespace around the keys in
 allowed-public-keys

---
 src/_zkapauthorizer/storage_common.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index 6d8882a..f8815dd 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -125,14 +125,11 @@ def get_configured_allowed_public_keys(node_config: Config) -> set[str]:
     Read the set of allowed issuer public keys from the given configuration.
     """
     section_name = "storageclient.plugins." + NAME
-    return set(
-        node_config.get_config(
-            section=section_name,
-            option="allowed-public-keys",
-        )
-        .strip()
-        .split(",")
-    )
+    keys = node_config.get_config(
+        section=section_name,
+        option="allowed-public-keys",
+    ).split(",")
+    return {key.strip() for key in keys if key.strip()}
 
 
 _dict_values: type = type(dict().values())
-- 
2.43.0


From 99044c4ff47585e196548c33d581182f2bec1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 34/39] fix: refuse a default-token-count which cannot be
 redeemed

---
 src/_zkapauthorizer/controller.py |  6 +++++-
 src/_zkapauthorizer/resource.py   | 18 ++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index 406393a..a8a7be9 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -754,6 +754,10 @@ def token_count_for_group(num_groups: int, total_tokens: int, group_number: int)
     return group_size
 
 
+# The number of groups of tokens into which the value of a voucher is divided.
+NUM_REDEMPTION_GROUPS = 16
+
+
 @define
 class PaymentController(object):
     """
@@ -814,7 +818,7 @@ class PaymentController(object):
     default_token_count: int
 
     allowed_public_keys: set[str] = field(validator=attr.validators.instance_of(set))
-    num_redemption_groups: int = 16
+    num_redemption_groups: int = NUM_REDEMPTION_GROUPS
 
     _error: dict[bytes, model_Error] = Factory(dict)
     _unpaid: dict[bytes, datetime] = Factory(dict)
diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index 1b576a1..e93fac6 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -51,7 +51,12 @@ from ._base64 import urlsafe_b64decode
 from ._json import dumps_utf8, loads
 from ._types import JSON
 from .config import Config
-from .controller import IRedeemer, PaymentController, get_redeemer
+from .controller import (
+    NUM_REDEMPTION_GROUPS,
+    IRedeemer,
+    PaymentController,
+    get_redeemer,
+)
 from .lease_maintenance import LeaseMaintenanceConfig
 from .model import Voucher, VoucherStore
 from .pricecalculator import PriceCalculator
@@ -93,15 +98,24 @@ def get_token_count(
     :param node_config: See ``from_configuration``.
 
     :return: The number of tokens from the configuration or a default.
+
+    :raise ValueError: If a voucher with the configured value could not be
+        redeemed because there would be groups without any tokens.
     """
     section_name = "storageclient.plugins.{}".format(plugin_name)
-    return int(
+    token_count = int(
         node_config.get_config(
             section=section_name,
             option="default-token-count",
             default=NUM_TOKENS,
         )
     )
+    if token_count < NUM_REDEMPTION_GROUPS:
+        raise ValueError(
+            f"default-token-count must be at least {NUM_REDEMPTION_GROUPS}, "
+            f"instead it was {token_count}",
+        )
+    return token_count
 
 
 def from_configuration(
-- 
2.43.0


From 6122f05b112e7acad7323187f38494e33063984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 35/39] fix: refuse a pass-value which is not positive

---
 src/_zkapauthorizer/storage_common.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/storage_common.py b/src/_zkapauthorizer/storage_common.py
index f8815dd..0ce3fa7 100644
--- a/src/_zkapauthorizer/storage_common.py
+++ b/src/_zkapauthorizer/storage_common.py
@@ -109,15 +109,22 @@ def get_configured_pass_value(node_config: Config) -> int:
     If no value is explicitly configured, a default value is returned.  The
     value is read from the **pass-value** option of the ZKAPAuthorizer plugin
     client section.
+
+    :raise ValueError: If the configured value is not a positive integer.
     """
     section_name = "storageclient.plugins." + NAME
-    return int(
+    pass_value = int(
         node_config.get_config(
             section=section_name,
             option="pass-value",
             default=BYTES_PER_PASS,
         )
     )
+    if pass_value <= 0:
+        raise ValueError(
+            f"pass-value must be greater than 0, instead it was {pass_value}",
+        )
+    return pass_value
 
 
 def get_configured_allowed_public_keys(node_config: Config) -> set[str]:
-- 
2.43.0


From 8d9604169481f4fc5b2928657151050e2fd8b587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 36/39] fix: refuse negative durations in the configuration

---
 src/_zkapauthorizer/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/config.py b/src/_zkapauthorizer/config.py
index c5264ca..692aeb6 100644
--- a/src/_zkapauthorizer/config.py
+++ b/src/_zkapauthorizer/config.py
@@ -125,6 +125,8 @@ def read_duration(cfg: Config, option: str, default: _T) -> Union[timedelta, _T]
 
     :return: ``None`` if the option is missing, otherwise the parsed duration
         as a ``timedelta``.
+
+    :raise ValueError: If the value is not a non-negative integer.
     """
     section_name = "storageclient.plugins." + NAME
     value_str = cfg.get_config(
@@ -134,4 +136,7 @@ def read_duration(cfg: Config, option: str, default: _T) -> Union[timedelta, _T]
     )
     if value_str is None:
         return default
-    return timedelta(seconds=int(value_str))
+    value = int(value_str)
+    if value < 0:
+        raise ValueError(f"{option} must not be negative, instead it was {value}")
+    return timedelta(seconds=value)
-- 
2.43.0


From 30b8c31c708d380719971d800834a2535b0665d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 37/39] fix: refuse an issuer URL which is not that of an HTTP
 server

---
 src/_zkapauthorizer/controller.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/controller.py b/src/_zkapauthorizer/controller.py
index a8a7be9..5d87beb 100644
--- a/src/_zkapauthorizer/controller.py
+++ b/src/_zkapauthorizer/controller.py
@@ -593,9 +593,16 @@ class RistrettoRedeemer(object):
             if announced_issuer != configured_issuer:
                 raise IssuerConfigurationMismatch(announced_issuer, configured_issuer)
 
+        api_root = URL.from_text(configured_issuer)
+        if api_root.scheme not in ("http", "https") or not api_root.host:
+            raise ValueError(
+                f"ristretto-issuer-root-url must be the URL of an HTTP server, "
+                f"instead it was {configured_issuer!r}",
+            )
+
         return cls(
             HTTPClient(Agent(reactor)),  # type: ignore[no-untyped-call]
-            URL.from_text(configured_issuer),
+            api_root,
         )
 
     def random_tokens_for_voucher(
-- 
2.43.0


From 2668d327966cf21fa9e019cb8b7250054d04d4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 38/39] fix: do not write malformed recovery requests to the
 log

They may hold a recovery capability.
---
 src/_zkapauthorizer/resource.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/resource.py b/src/_zkapauthorizer/resource.py
index e93fac6..23291d0 100644
--- a/src/_zkapauthorizer/resource.py
+++ b/src/_zkapauthorizer/resource.py
@@ -307,7 +307,12 @@ class RecoverProtocol(WebSocketServerProtocol):  # type: ignore[misc]
         only thing they can send is a request to initiate recovery).
         """
         try:
-            body = loads(payload)
+            try:
+                body = loads(payload)
+            except ValueError:
+                # The error includes the message, which may hold a recovery
+                # capability, and the log must not.
+                raise ValueError("Recovery request is not JSON") from None
             if not isinstance(body, dict):
                 raise ValueError(f"Expected dict, instead got {type(body)}")
             if set(body.keys()) != {"recovery-capability"}:
-- 
2.43.0


From d5a696957babb0fe20100032e4ea4e11542ed80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 39/39] fix: one share a server cannot read keeps no other
 lease from being renewed

A storage server refuses a whole stat_shares request if it cannot read the
header of one of the shares asked about.  Lease maintenance asks about all
shares at once, so a single damaged share file kept it from renewing any
lease on that server.
---
 src/_zkapauthorizer/lease_maintenance.py | 36 +++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/_zkapauthorizer/lease_maintenance.py b/src/_zkapauthorizer/lease_maintenance.py
index 058ee31..fa473ac 100644
--- a/src/_zkapauthorizer/lease_maintenance.py
+++ b/src/_zkapauthorizer/lease_maintenance.py
@@ -46,8 +46,10 @@ from allmydata.util.hashutil import (
 )
 from aniso8601 import parse_datetime
 from attrs import Factory, define
+from foolscap.ipb import DeadReferenceError
 from twisted.application.service import IService, Service
 from twisted.internet.defer import Deferred
+from twisted.internet.error import ConnectionDone, ConnectionLost
 from twisted.internet.interfaces import IDelayedCall, IReactorTime
 from twisted.python.failure import Failure
 from twisted.python.filepath import FilePath
@@ -235,7 +237,7 @@ async def renew_leases_on_server(
     :return: A coroutine which completes after all storage indexes have been
         checked and any leases that need renewal have been renewed.
     """
-    stats = await server.stat_shares(storage_indexes)
+    stats = await stat_shares(storage_indexes, server)
     for storage_index, stat_dict in zip(storage_indexes, stats):
         if not stat_dict:
             # The server has no shares for this storage index.
@@ -261,6 +263,38 @@ async def renew_leases_on_server(
                 err(Failure(), "Lease renewal")  # type: ignore[no-untyped-call]
 
 
+async def stat_shares(
+    storage_indexes: list[StorageIndex], server: StorageServer
+) -> list[dict[int, ShareStat]]:
+    """
+    Get the stats of all of the shares for the given storage indexes on the
+    given storage server, without those for which the server has no answer.
+
+    :return: A coroutine which completes with one dictionary for each of
+        ``storage_indexes``, in the same order.
+    """
+    try:
+        return await server.stat_shares(storage_indexes)
+    except (DeadReferenceError, ConnectionDone, ConnectionLost):
+        raise
+    except Exception:
+        # A server which cannot read one of the shares rejects the request as
+        # a whole.
+        err(Failure(), "Checking leases on one storage server")  # type: ignore[no-untyped-call]
+
+    stats: list[dict[int, ShareStat]] = []
+    for storage_index in storage_indexes:
+        try:
+            [stat_dict] = await server.stat_shares([storage_index])
+        except (DeadReferenceError, ConnectionDone, ConnectionLost):
+            raise
+        except Exception:
+            # The other leases must still be renewed.
+            stat_dict = {}
+        stats.append(stat_dict)
+    return stats
+
+
 def soonest_expiration(stats: Iterable[ShareStat]) -> ShareStat:
     """
     :return: The share stat from ``stats`` with a lease which expires before
-- 
2.43.0

