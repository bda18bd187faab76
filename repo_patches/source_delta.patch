From 482c65fc52e2f291ac59355b5b34405626f801af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 01/34] fix: util.next_tid: lock around the last timestamp

Two threads could read the same _tid_ts_last and hand out the same TID.
---
 arroba/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..68d9930 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_lock = threading.Lock()  # protects _tid_ts_last
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -216,8 +218,11 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_lock:
+        _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+        ts = _tid_ts_last
+
+    return int_to_tid(ts)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From 2f13c3b49cf76b7446450a64d818384ef9e6c5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 02/34] fix: DatastoreStorage.write_blocks: join the commit's
 transaction

The blocks, including the signed commit, were stored in their own transaction
before the repo's head was updated, so a crash, conflict or storage error in
between left a commit that isn't in the repo's history but is served on the
firehose.
---
 arroba/datastore_storage.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..d53b47f 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -873,14 +873,19 @@ class DatastoreStorage(Storage, NdbMixin):
         return AtpBlock.create(repo_did=repo_did, data=obj, seq=seq).to_block()
 
     @ndb_context
-    @ndb.non_transactional()
     def write_blocks(self, blocks):
-        keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
-        existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
+        @ndb.non_transactional()
+        def get_existing():
+            keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
+            return AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
+
+        existing = get_existing()
         existing_cids = [key.id() for key in existing]
         new = [AtpBlock.from_block(b) for b in blocks
                if b.cid.encode('base32') not in existing_cids]
         logger.debug(f'  {len(new)} new {len(existing)} existing')
+        # join the current transaction, if any, so that a commit's blocks and its
+        # repo's new head are stored together or not at all
         ndb.transaction(lambda: ndb.put_multi(new), join=True)
 
     @ndb_context
-- 
2.43.0


From d90d961aad9de90a3c8ffc4a0277c7edc24291fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 03/34] fix: DatastoreStorage._commit: handle applied
 transactions whose commit RPC failed

When the datastore applied a commit's transaction but its response was lost, ndb
retried it on top of itself, so creates failed with ValueError even though they
had been applied, and other writes were committed a second time with the same
sequence number. Also, a failed commit left the caller's Repo pointing at a head
that was never stored.
---
 arroba/datastore_storage.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index d53b47f..fa929f7 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -889,7 +889,25 @@ class DatastoreStorage(Storage, NdbMixin):
         ndb.transaction(lambda: ndb.put_multi(new), join=True)
 
     @ndb_context
-    @ndb.transactional(retries=10)
-    def _commit(self, *args, **kwargs):
-        """Just runs :meth:`Storage._commit` in a transaction."""
-        return super()._commit(*args, **kwargs)
+    def _commit(self, repo, *args, **kwargs):
+        """Runs :meth:`Storage._commit` in a transaction."""
+        orig = repo.head, repo.mst
+        attempts = []  # CommitDatas
+
+        @ndb.transactional(retries=10)
+        def attempt():
+            # a previous attempt's transaction may have been applied even though
+            # its commit RPC returned an error. if so, don't commit again!
+            for data in attempts:
+                if self.has(data.commit.cid):
+                    return data
+
+            attempts.append(super(DatastoreStorage, self)._commit(
+                repo, *args, **kwargs))
+            return attempts[-1]
+
+        try:
+            return attempt()
+        except BaseException:
+            repo.head, repo.mst = orig
+            raise
-- 
2.43.0


From dd05040546348430b96b3adcfd2119d3ea449db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 04/34] fix: Storage.commit: retry with a new seq when a
 concurrent commit got ahead

A commit's sequence number, and so its rev, is allocated before its transaction.
When two commits to the same repo ran concurrently, the one with the higher
number could be stored first, so revs and seqs went backward along the repo's
history.
---
 arroba/datastore_storage.py |  7 ++++++-
 arroba/storage.py           | 41 ++++++++++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index fa929f7..a06ab21 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -33,7 +33,7 @@ from .mst import MST
 from .repo import Repo
 from .server import server
 from . import storage
-from .storage import Action, Block, Storage, SUBSCRIBE_REPOS_NSID
+from .storage import Action, Block, SeqConflict, Storage, SUBSCRIBE_REPOS_NSID
 from . import util
 from .util import (
     dag_cbor_cid,
@@ -888,6 +888,11 @@ class DatastoreStorage(Storage, NdbMixin):
         # repo's new head are stored together or not at all
         ndb.transaction(lambda: ndb.put_multi(new), join=True)
 
+    def _check_seq(self, repo, seq):
+        # another commit allocated its sequence number after us but committed first
+        if repo.head.seq > seq:
+            raise SeqConflict(f'{repo.did} head seq {repo.head.seq} is after {seq}')
+
     @ndb_context
     def _commit(self, repo, *args, **kwargs):
         """Runs :meth:`Storage._commit` in a transaction."""
diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..f04cab8 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -69,6 +69,10 @@ CommitOp = namedtuple('CommitOp', [  # for subscribeRepos
 # }
 
 
+class SeqConflict(RuntimeError):
+    """Raised when a repo's head is newer than a new commit's sequence number."""
+
+
 class Block:
     r"""An ATProto block: a record, :class:`MST` entry, commit, or other event.
 
@@ -510,18 +514,34 @@ class Storage:
           ValueError: if the commit is invalid, eg the path for an update or delete
             doesn't currently exist
         """
-        seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
+        while True:
+            seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
 
-        try:
-            commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
-            if repo.callback:
-                repo.callback(data=commit_data)
-        except BaseException:
-            if repo.callback:
-                repo.callback(lost_seq=seq)
-            raise
+            try:
+                commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
+                if repo.callback:
+                    repo.callback(data=commit_data)
+                return commit_data
+            except BaseException as e:
+                if repo.callback:
+                    repo.callback(lost_seq=seq)
+                # retry with a new seq, since revs (and seqs) have to increase
+                if not isinstance(e, SeqConflict):
+                    raise
 
-        return commit_data
+    def _check_seq(self, repo, seq):
+        """Checks that a new commit's sequence number is later than its repo's head.
+
+        Subclasses that support concurrent commits to the same repo should override
+        this.
+
+        Args:
+          repo (Repo): freshly loaded from storage
+          seq (int)
+
+        Raises:
+          SeqConflict: if the repo's head already has a later sequence number
+        """
 
     def _commit(self, repo, writes, seq, repo_did=None):
         """Separate from :meth:`commit` so that subclasses can put it in a tx."""
@@ -545,6 +565,7 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            self._check_seq(repo, seq)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From 76cd16b1a144bff4a98d47b0651c48eb1434b9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 05/34] fix: Storage._commit: leave the repo alone until the
 commit succeeds

MemoryStorage.load_repo returns the caller's own Repo, so when a later write in
the same commit was rejected, the earlier ones had already changed its MST.
---
 arroba/storage.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index f04cab8..08f68e7 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -576,6 +576,9 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        # don't touch the repo itself until everything has succeeded. MemoryStorage's
+        # load_repo returns the same object that our caller and other readers have.
+        tree = repo.mst
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -585,12 +588,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := tree.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                tree = tree.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -610,23 +613,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                tree = tree.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = tree.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                tree = tree.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if tree.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = tree.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -655,12 +658,13 @@ class Storage:
 
         # update repo head
         if repo.did:
+            repo.mst = tree
             repo.head = commit_data.commit
             logger.info(f'Updating {repo.did} head {repo.head.cid}')
             self.store_repo(repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
+        orig_repo.mst = tree
         orig_repo.head = commit_block
         return commit_data
 
-- 
2.43.0


From 807979cef4b64cd85b1d96bc878fcfcbb0b5d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 06/34] fix: MemorySequences: lock so that threads don't get
 the same seq

---
 arroba/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 08f68e7..d012437 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,6 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
+import threading
 
 
 import dag_cbor
@@ -674,15 +675,18 @@ class MemorySequences(Sequences):
 
     Attributes:
       sequences (dict): {str NSID: int next sequence number}
+      lock (threading.Lock): for modifying sequences
     """
     def __init__(self):
         self.sequences = {}
+        self.lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
+        with self.lock:
+            next = self.sequences.setdefault(nsid, 1)
+            self.sequences[nsid] += 1
         logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From 31c41e1f8a276e0f2683361d84528cd94dff390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 07/34] fix: DatastoreSequences.last: don't return a stale
 value from ndb's context cache

---
 arroba/datastore_storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index a06ab21..b46c8b0 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -295,6 +295,7 @@ class DatastoreSequences(storage.Sequences, NdbMixin):
         return ret
 
     @ndb_context
+    @ndb.non_transactional()
     def last(self, nsid):
         """Returns the last allocated sequence number for a given NSID.
 
@@ -304,7 +305,8 @@ class DatastoreSequences(storage.Sequences, NdbMixin):
         Returns:
           integer, last sequence number for this NSID, or None if we don't know it
         """
-        if seq := AtpSequence.get_by_id(nsid):
+        # other threads and processes allocate too, so don't trust ndb's context cache
+        if seq := AtpSequence.get_by_id(nsid, use_cache=False):
             return seq.next - 1
 
 
-- 
2.43.0


From f10a26ef5ff0b40c90843a9c07231bf4fdfbaf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 08/34] fix: MemcacheSequences: only trust a new batch once its
 transaction commits

---
 arroba/datastore_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index b46c8b0..2603326 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -368,11 +368,12 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
                 stored_seq.next = seq + MEMCACHE_SEQUENCE_BATCH
                 logger.info(f'allocating {MEMCACHE_SEQUENCE_BATCH} seqs batch for {nsid}, up to {stored_seq.next}')
                 stored_seq.put()
-            self.max_seqs[nsid] = stored_seq.next
+            return stored_seq.next
 
         with self.max_seqs_lock:
             if self.max_seqs.get(nsid, 0) - seq < MEMCACHE_SEQUENCE_BUFFER:
-                alloc_batch()
+                # only once the transaction has committed, since it may fail
+                self.max_seqs[nsid] = alloc_batch()
 
         assert seq and seq <= self.max_seqs[nsid], (seq, self.max_seqs[nsid])
         logger.info(f'allocated seq {seq}')
-- 
2.43.0


From 93aa35e24f8ce8fa91375b7baaf9ece345a952ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 09/34] fix: MemcacheSequences: don't initialize memcache from
 ndb's context cache

---
 arroba/datastore_storage.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 2603326..0033519 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -349,12 +349,19 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
         assert MEMCACHE_SEQUENCE_BATCH > MEMCACHE_SEQUENCE_BUFFER > 1, \
             (MEMCACHE_SEQUENCE_BATCH, MEMCACHE_SEQUENCE_BUFFER)
 
+        # in its own transaction so that we don't get a stale value from the current ndb
+        # context's cache or transaction
+        @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
+                           join=None)
+        def stored_next():
+            return AtpSequence.get_or_insert(nsid, next=1).next
+
         key = self._memcache_key(nsid)
         seq = self.memcache.incr(key, 1)
         if seq is None:  # not in memcache
             with self.max_seqs_lock:
                 # can't use last() because it looks in memcache
-                self.max_seqs[nsid] = AtpSequence.get_or_insert(nsid, next=1).next - 1
+                self.max_seqs[nsid] = stored_next() - 1
                 # we'll allocate a new batch below
                 if self.memcache.add(key, self.max_seqs[nsid]):
                     logger.info(f'initialized memcache sequence counter {key} to {self.max_seqs[nsid]}')
-- 
2.43.0


From c01e5fc3e4263ac703114e2e9b884e74144df3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 10/34] fix: Lease: don't outlive the memcache key; round
 expiration up

expires_at was calculated after add returned, so it was later than memcache's own
expiration, and release could free a lease that someone else had acquired. A
sub-second expiration was truncated to 0, ie never.
---
 arroba/memcache.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..55b6147 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,6 +1,7 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
@@ -59,11 +60,16 @@ class Lease:
         delay = self.initial_retry_delay
 
         for attempt in range(self.retries + 1):
+            # calculate this before add, so that we never think we still hold the lease
+            # after memcache has expired it
+            expires_at = webutil.util.now() + self.expiration
+
             # add returns True if the key didn't exist and was set,
-            # False if it already existed
+            # False if it already existed. memcache expirations are whole seconds, and
+            # 0 means never.
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+                               expire=math.ceil(self.expiration.total_seconds())):
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
-- 
2.43.0


From 7d75d7e5f2f26acf9c1a745ac8ad31b58bd462c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 11/34] fix: Storage._commit: check the stored repo's status,
 not just the caller's

---
 arroba/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index d012437..afb83b3 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -566,6 +566,9 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            # our caller's repo may be out of date
+            if repo.status:
+                raise InactiveRepo(repo.did, repo.status)
             self._check_seq(repo, seq)
             prev = repo.head.cid  # for the new commit
 
-- 
2.43.0


From 2f9a19edb8f5a736b997a56c49df58b210ac2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 12/34] fix: tombstoned repos stay tombstoned; don't announce
 status changes that didn't happen

---
 arroba/datastore_storage.py |  7 +++++--
 arroba/storage.py           | 28 +++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 0033519..8729af7 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -717,15 +717,18 @@ class DatastoreStorage(Storage, NdbMixin):
     @ndb_context
     def _set_repo_status(self, repo, status):
         assert status in (DEACTIVATED, DELETED, TOMBSTONED, None)
-        repo.status = status  # in memory only
 
         @ndb.transactional(join=True)
         def update():
             atp_repo = AtpRepo.get_by_id(repo.did)
+            if atp_repo.status == TOMBSTONED and status != TOMBSTONED:
+                return TOMBSTONED
             atp_repo.status = status
             atp_repo.put()
+            return status
 
-        update()
+        repo.status = update()  # in memory only
+        return repo.status == status
 
     def store_repo(self, repo):
         @ndb.transactional(join=True)
diff --git a/arroba/storage.py b/arroba/storage.py
index afb83b3..0e46d61 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -270,12 +270,14 @@ class Storage:
         After this, any attempt to write to this repo will raise
         :class:`InactiveRepo`.
 
+        Does nothing if the repo is tombstoned.
+
         Args:
           repo (Repo)
         """
-        self._set_repo_status(repo, DEACTIVATED)
-        block = self.write_event(repo=repo, type='account',
-                                 active=False, status='deactivated')
+        if self._set_repo_status(repo, DEACTIVATED):
+            block = self.write_event(repo=repo, type='account',
+                                     active=False, status='deactivated')
 
     def activate_repo(self, repo):
         """Marks a repo as active.
@@ -291,8 +293,8 @@ class Storage:
         Args:
           repo (Repo)
         """
-        self._set_repo_status(repo, None)
-        block = self.write_event(repo=repo, type='account', active=True)
+        if self._set_repo_status(repo, None):
+            block = self.write_event(repo=repo, type='account', active=True)
 
     def tombstone_repo(self, repo):
         """Marks a repo as tombstoned.
@@ -320,6 +322,18 @@ class Storage:
         """
         raise NotImplementedError()
 
+    def _set_repo_status(self, repo, status):
+        """Sets a repo's status in storage, unless it's tombstoned, which is permanent.
+
+        Args:
+          repo (Repo): status is updated
+          status (str): or None
+
+        Returns:
+          bool: False if the repo is already tombstoned and status is different
+        """
+        raise NotImplementedError()
+
     def read(self, cid):
         """Reads a node from storage.
 
@@ -739,7 +753,11 @@ class MemoryStorage(Storage):
         return list(itertools.islice(it, limit))
 
     def _set_repo_status(self, repo, status):
+        if repo.status == TOMBSTONED and status != TOMBSTONED:
+            return False
+
         repo.status = status
+        return True
 
     def read(self, cid):
         return self.blocks.get(cid)
-- 
2.43.0


From 60cae8515fed41aac98b1b5a85db97423ff0dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 13/34] fix: Storage.read_events_by_seq: skip imported blocks,
 which have seq 0

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 0e46d61..6ae487b 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -416,7 +416,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # blocks in imported repos have seq 0. they aren't in the event log.
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From 91f6d7ba0583c5620dca6691a9b519fdbbfe341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 14/34] fix: MemoryStorage.read_many_raw: handle missing blocks

---
 arroba/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 6ae487b..8188d66 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -769,8 +769,9 @@ class MemoryStorage(Storage):
         return found
 
     def read_many_raw(self, cids):
-        blocks = [self.blocks.get(CID.decode(cid)) for cid in cids]
-        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)}
+        blocks = {cid: self.blocks.get(CID.decode(cid)) for cid in cids}
+        return {cid: (block.encoded, block.seq) if block else None
+                for cid, block in blocks.items()}
 
     def read_blocks_by_seq(self, start=0, repo=None):
         assert start >= 0
-- 
2.43.0


From 4791cd1c0faf5235f1e01249af1bd7dfc5eab50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 15/34] fix: deleteRecord: return a valid response instead of
 failing after committing

---
 arroba/xrpc_repo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d1a7f8b..5a40a14 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -84,7 +84,7 @@ def delete_record(input):
     repo = server.load_repo(input['repo'])
     record = repo.get_record(input['collection'], input['rkey'])
     if record is None:
-        return  # noop
+        return {}  # noop
 
     server.storage.commit(repo, [Write(
         action=Action.DELETE,
@@ -92,6 +92,8 @@ def delete_record(input):
         rkey=input['rkey'],
     )])
 
+    return {}
+
 
 @server.server.method('com.atproto.repo.listRecords')
 def list_records(input, repo=None, collection=None, limit=50, cursor=None,
-- 
2.43.0


From 55f7e36c873c3bb27c0d4fff85bed9bdc0ce0ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 16/34] fix: MST.delete: reset the layer of a tree that becomes
 empty

...otherwise later adds to the same object keep the old layer, and the tree ends
up with empty nodes at the top that no other implementation generates.
---
 arroba/mst.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..fb87e03 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -572,6 +572,9 @@ class MST:
         entries = self.get_entries()
         if len(entries) == 1 and isinstance(entries[0], MST):
             return entries[0].trim_top()
+        elif not entries and self.layer:
+            # an empty tree is always layer 0
+            return MST.create(storage=self.storage, entries=[])
         else:
             return self
 
-- 
2.43.0


From e9423419539de2a738a1a4968896ecfd6aad1930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 17/34] fix: firehose.subscribe: hand off to the rollback
 window without repeats or gaps

Events could be repeated if another subscriber merged older events into the
window meanwhile, or missed if the window moved forward past the end of the
events we'd read. Subscribing with a cursor raised IndexError if the window was
empty, and AssertionError if it moved too far during the hand off. A cursor
ahead of the collector got events before it.
---
 arroba/firehose.py | 99 ++++++++++++++++++++++------------------------
 1 file changed, 47 insertions(+), 52 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..7a9abd5 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -120,27 +120,22 @@ def subscribe(cursor=None):
     if cursor:
         log(f'starting with cursor {cursor}')
 
-    # if this cursor behind our rollback window, load the window between the two
-    # manually, for this subscriber
+    next_seq = cursor  # next sequence number to emit
     handoff = None     # deque; copy of rollback window for when we transition to it
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
-    if cursor is not None and cursor < rollback_start:
-        log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
-
-        pre_rollback = []  # events prior to rollback window that we load here
-        last_seq = None
-        for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
-            header, payload = process_event(event)
-
-            if last_seq and payload['seq'] <= last_seq:
-                non_monotonic(payload['seq'], last_seq, event)
-                continue
-            last_seq = payload['seq']
+    pre_rollback = []  # events prior to rollback window that we load here
+    subscriber = SimpleQueue()
 
+    try:
+        while handoff is None:
             with lock:
-                # have we reached the rollback window?
-                if payload['seq'] >= rollback[0][1]['seq']:
-                    rollback_start = rollback[0][1]['seq']
+                # if we don't have any events in memory, serve from storage up to
+                # where the collector is now
+                rollback_start = (rollback[0][1]['seq'] if rollback
+                                  else collector.last_seq + 1)
+
+                if cursor is None or next_seq >= rollback_start:
+                    # hand off to rollback window and new events. do both at the same
+                    # time so that we don't miss or repeat any events in between.
                     handoff = rollback.copy()
 
                     remaining_len = rollback.maxlen - len(rollback)
@@ -151,49 +146,50 @@ def subscribe(cursor=None):
                                         if e[1]['seq'] < rollback_start]
                         if pre_rollback := pre_rollback[-remaining_len:]:
                             log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
-                            assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
-                                (len(rollback), len(pre_rollback))
-                            assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
-                                (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
                             rollback.extendleft(reversed(pre_rollback))
 
+                    log(f'streaming new events after {handoff[-1][1]["seq"] if handoff else 0}')
+                    subscribers.append(subscriber)
                     break
 
-            log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-            pre_rollback.append((header, payload))
-            yield (header, payload)
-
-    # hand off to rollback window and new events
-    if cursor is not None:
-        if not handoff:
-            handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
-        for header, payload in handoff:
-            if payload['seq'] >= cursor:
-                log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-                yield (header, payload)
+            # if this cursor is behind our rollback window, load the events between
+            # the two manually, for this subscriber
+            log(f'{next_seq} is behind rollback start {rollback_start}; loading rest manually')
+            for event in server.storage.read_events_by_seq(start=next_seq):
+                header, payload = process_event(event)
 
-    # enqueue subscriber and serve live!
-    subscriber = SimpleQueue()
-    try:
-        with lock:
-            if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+                if payload['seq'] < next_seq:
+                    non_monotonic(payload['seq'], next_seq - 1, event)
+                    continue
 
-                for header, payload in rollback:
-                    if payload['seq'] > last_seq:
-                        log(f'Emitting rollback (catch-up) {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
-                        subscriber.put_nowait((header, payload))
-                        last_seq = payload['seq']
+                # have we reached the rollback window?
+                if payload['seq'] >= rollback_start:
+                    break
+
+                log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                pre_rollback.append((header, payload))
+                next_seq = payload['seq'] + 1
+                yield (header, payload)
+
+            # check again whether we're caught up, since the window may have moved
+            # forward while we were reading
+            next_seq = max(next_seq, rollback_start)
 
-            log(f'streaming new events after {rollback[-1][1]["seq"] if rollback else 0}')
-            subscribers.append(subscriber)
+        if cursor is not None:
+            log(f'serving rollback from {next_seq}')
+            for header, payload in handoff:
+                if payload['seq'] >= next_seq:
+                    log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                    yield (header, payload)
 
         # let these get garbage collected
         handoff = pre_rollback = None
+
+        # serve live!
         while True:
-            yield subscriber.get()
+            header, payload = subscriber.get()
+            if cursor is None or payload['seq'] >= cursor:
+                yield (header, payload)
 
     finally:
         log('removing subscriber')
@@ -328,9 +324,8 @@ class Collector(threading.Thread):
                 # different than going backward. (as of 2026-01-15, going backward
                 # breaks Bluesky's own relays for our PDS, they have to do a manual
                 # reconnect to fix that. :/ )
-                self.last_seq = cur_seq
-
                 with lock:
+                    self.last_seq = cur_seq
                     rollback.append((header, payload))
                     for subscriber in subscribers:
                         # subscriber here is an unbounded SimpleQueue, so put should
-- 
2.43.0


From 719ad52d79c3169fcc050a6feac13ed79cbe4fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 18/34] fix: firehose: don't skip a subscriber if another is
 removed while emitting

---
 arroba/firehose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 7a9abd5..49b3daa 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -327,7 +327,9 @@ class Collector(threading.Thread):
                 with lock:
                     self.last_seq = cur_seq
                     rollback.append((header, payload))
-                    for subscriber in subscribers:
+                    # copy since garbage collection here, in this thread, may finish
+                    # subscribe()'s generators, which remove their subscribers
+                    for subscriber in list(subscribers):
                         # subscriber here is an unbounded SimpleQueue, so put should
                         # never block, but I want to be extra sure. (if put would
                         # block here, put_nowait will raise queue.Full instead.)
-- 
2.43.0


From 851c6c77e328afbd070ea7e4dffb9720ed99bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 19/34] fix: firehose: wait the full delay for a skipped seq
 even if the stream was idle

The delay was measured from the last event we emitted, so after an idle period
longer than the delay, we didn't wait for skipped seqs at all.
---
 arroba/firehose.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 49b3daa..45f6651 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -269,7 +269,8 @@ class Collector(threading.Thread):
 
         global rollback
         timeout_s = SUBSCRIBE_REPOS_SKIPPED_SEQ_DELAY.total_seconds()
-        last_event = time.time()
+        waiting_for = None    # skipped seq that we're waiting for...
+        waiting_since = None  # ...and when we started, time.monotonic()
         seen = 0
 
         while True:
@@ -298,7 +299,10 @@ class Collector(threading.Thread):
                 # we're not too far behind, wait for it before giving up on it and
                 # moving on
                 if cur_seq > next_seq:
-                    if time.time() - last_event <= timeout_s:
+                    if waiting_for != next_seq:
+                        waiting_for = next_seq
+                        waiting_since = time.monotonic()
+                    if time.monotonic() - waiting_since <= timeout_s:
                         last = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
                         if last is None:
                             logger.warning('No last seq! will retry...')
@@ -310,7 +314,6 @@ class Collector(threading.Thread):
                     logger.info(f'Gave up waiting for seqs {next_seq} to {cur_seq - 1}!')
 
                 # emit event!
-                last_event = time.time()
                 header, payload = process_event(event)
                 did = payload.get('did') or payload.get('repo')
                 delay_s = int((webutil.util.now() - datetime.fromisoformat(payload['time']))\
-- 
2.43.0


From c908c07590c76586507f56c77e6ca6ad9f3acbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 20/34] fix: firehose: retry if loading the rollback window
 fails

The collector thread died, and start() and all subscribers hung forever.
---
 arroba/firehose.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 45f6651..d3ff47f 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -218,7 +218,8 @@ class Collector(threading.Thread):
         super().__init__(*args, daemon=True, name='firehose collector', **kwargs)
         self.limit = limit
 
-    def run(self):
+    def _preload(self):
+        """Loads the rollback window."""
         logger.info(f'preloading rollback window ({PRELOAD_WINDOW})')
         self.last_seq = server.storage.sequences.last(SUBSCRIBE_REPOS_NSID)
         assert self.last_seq is not None
@@ -244,6 +245,15 @@ class Collector(threading.Thread):
             self.last_seq = rollback[-1][1]['seq']
             logger.info(f'  preloaded seqs {rollback[0][1]["seq"]}-{self.last_seq}')
 
+    def run(self):
+        while True:
+            try:
+                self._preload()
+                break
+            except BaseException as e:
+                logger.exception('Uncaught exception while preloading, will retry')
+                time.sleep(max(SUBSCRIBE_REPOS_BATCH_DELAY.total_seconds(), 1))
+
         started.set()
 
         while True:
-- 
2.43.0


From 6c09d6bf0ce3207fb81aabd1e82e5a17edb3a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 21/34] fix: Storage.read_events_by_seq: don't take records for
 commits or messages

A record with a commit's fields, a subscribeRepos message's $type, or a $type
that isn't a string broke the event log: readers failed for good, or emitted the
record as an event.
---
 arroba/storage.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 8188d66..fc3f988 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -401,7 +401,15 @@ class Storage:
 
         seq = commit_block = blocks = None
 
-        def make_commit():
+        def make_event():
+            if not commit_block:
+                # non-commit message. has its own sequence number, no other blocks
+                assert len(blocks) == 1, f'seq {seq}'
+                [block] = blocks.values()
+                assert block.decoded.get('$type', '').startswith(
+                    'com.atproto.sync.subscribeRepos#'), f'seq {seq}'
+                return block.decoded
+
             for op in commit_block.ops:
                 if (op.action in (Action.CREATE, Action.UPDATE)
                         and op.cid not in blocks):
@@ -420,29 +428,23 @@ class Storage:
         for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
-                if commit_block:
-                    yield make_commit()
-                else:
-                    # we shouldn't have any dangling blocks that we don't serve
-                    assert not blocks
+                if blocks:
+                    yield make_event()
                 seq = block.seq
                 blocks = {}  # maps CID to Block
                 commit_block = None
 
-            if block.decoded.get('$type', '').startswith(
-                    'com.atproto.sync.subscribeRepos#'):  # non-commit message
-                yield block.decoded
-                continue
-
             blocks[block.cid] = block
+            # records may look like commits or other messages too. only commits have
+            # ops, and if this commit includes a record, it definitely has ops.
             commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
+            if (block.decoded.keys() == set(commit_fields)
+                    and (block.ops or not commit_block)):
                 commit_block = block
 
-        # final commit
+        # final event
         if blocks:
-            assert commit_block, f'seq {seq}'
-            yield make_commit()
+            yield make_event()
 
     def has(self, cid):
         """Checks if a given :class:`CID` is currently stored.
-- 
2.43.0


From 60d7ab12b88035e2a052104e3ca976bd48d3fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 22/34] fix: listRepos: return the head commit's own rev

An imported repo's head has seq 0, so its rev was wrong until its first commit here.
---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..511dd58 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From 78443eb72dae0b2d483ba9b7c2cc443fa8b3d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 23/34] fix: sync.getRecord: return the covering proof for the
 record, not its collection

The proof's path was just the collection, so the tree nodes that prove the record
were usually missing.
---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 511dd58..8cf0c12 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,7 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}', block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From c6449b56f6de86944e69d84a923c2eb512644088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 24/34] fix: importRepo rejects archives that lack MST nodes or
 records

---
 arroba/xrpc_repo.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 5a40a14..d11dd1b 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -12,10 +12,10 @@ from requests import RequestException
 import webutil.util
 
 from . import did
-from .mst import MST
+from .mst import Leaf, MST
 from .repo import Repo, Write
 from . import server
-from .storage import Action, Block
+from .storage import Action, Block, MemoryStorage
 from . import server
 from . import util
 from .util import at_uri, dag_cbor_cid, new_key, next_tid, verify_sig
@@ -232,6 +232,14 @@ def import_repo(input):
     elif not repo_did:
         raise ValueError("Head commit block missing DID")
 
+    # check that the archive has all of the repo's MST nodes and records
+    archive = MemoryStorage()
+    archive.write_blocks(blocks)
+    for entry in MST.load(storage=archive, cid=head.decoded['data']).walk():
+        cid = entry.value if isinstance(entry, Leaf) else entry.get_pointer()
+        if not archive.has(cid):
+            raise ValueError(f'CAR missing block {cid}')
+
     logger.info(f'importing repo for {repo_did}')
 
     for block in blocks:
-- 
2.43.0


From fc93c997d0709f0ae6ae598e127b2551e9759f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:07 +0000
Subject: [PATCH 25/34] fix: importRepo doesn't overwrite a repo that was
 created concurrently

---
 arroba/datastore_storage.py | 18 ++++++++++++++++--
 arroba/storage.py           | 17 ++++++++++++-----
 arroba/xrpc_repo.py         |  2 +-
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 8729af7..780345a 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -644,7 +644,7 @@ class DatastoreStorage(Storage, NdbMixin):
                          ndb_context_kwargs=ndb_context_kwargs)
 
     @ndb_context
-    def create_repo(self, repo):
+    def create_repo(self, repo, exist_ok=True):
         assert repo.did
         assert repo.head
 
@@ -668,7 +668,21 @@ class DatastoreStorage(Storage, NdbMixin):
                            encrypted_signing_key=signing_key_pem,
                            encrypted_rotation_key=rotation_key_pem,
                            status=repo.status)
-        atp_repo.put()
+
+        @ndb.transactional(join=True)
+        def create():
+            existing = AtpRepo.get_by_id(repo.did)
+            # if it's ours, a previous attempt's transaction was applied even though
+            # its commit RPC returned an error
+            if existing and existing.encrypted_signing_key != signing_key_pem:
+                raise ValueError(f'repo already exists for DID {repo.did}')
+            elif not existing:
+                atp_repo.put()
+
+        if exist_ok:
+            atp_repo.put()
+        else:
+            create()
         logger.debug(f'Stored repo {atp_repo}')
 
     @ndb_context
diff --git a/arroba/storage.py b/arroba/storage.py
index fc3f988..16b60a2 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -202,16 +202,20 @@ class Storage:
         assert sequences
         self.sequences = sequences
 
-    def create_repo(self, repo):
+    def create_repo(self, repo, exist_ok=True):
         """Stores a new repo's metadata in storage.
 
         Only stores the repo's handle and head commit :class:`CID`, not blocks!
 
-        If the repo already exists in storage, this should update it instead of
-        failing.
+        If the repo already exists in storage, and ``exist_ok`` is True, this should
+        update it instead of failing.
 
         Args:
           repo (Repo)
+          exist_ok (bool)
+
+        Raises:
+          ValueError: if ``exist_ok`` is False and the repo already exists
         """
         raise NotImplementedError()
 
@@ -734,8 +738,11 @@ class MemoryStorage(Storage):
         self.blocks = {}
         self.repos = {}
 
-    def create_repo(self, repo):
-        self.repos[repo.did] = repo
+    def create_repo(self, repo, exist_ok=True):
+        if self.repos.setdefault(repo.did, repo) is not repo:
+            if not exist_ok:
+                raise ValueError(f'repo already exists for DID {repo.did}')
+            self.repos[repo.did] = repo
 
     def load_repo(self, did_or_handle):
         assert did_or_handle
diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d11dd1b..0e2c7b8 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -251,7 +251,7 @@ def import_repo(input):
     handle = did.get_handle(did_doc)
     repo = Repo(storage=server.storage, mst=mst, head=head, handle=handle,
                 status='deactivated', signing_key=new_key(), rotation_key=new_key())
-    server.storage.create_repo(repo)
+    server.storage.create_repo(repo, exist_ok=False)
 
 
 @server.server.method('com.atproto.repo.applyWrites')
-- 
2.43.0


From c354177fd0434d4ba68014e29c3b5ff0955cc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 26/34] fix: getBlob: skip a blob URL whose content is now over
 the size limit

---
 arroba/xrpc_sync.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 8cf0c12..70991f1 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -6,7 +6,7 @@ import os
 
 from carbox import car
 import dag_cbor
-from lexrpc.base import XrpcError
+from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
 from multiformats.multibase import MultibaseKeyError, MultibaseValueError
@@ -245,7 +245,7 @@ def get_blob(input, did=None, cid=None):
 
         try:
             blob.maybe_fetch(get_fn=webutil.util.session.get)
-        except requests.RequestException:
+        except (requests.RequestException, ValidationError):
             continue
 
         if not blob.status:
-- 
2.43.0


From 6ea703df63a835aec476ae0c9cf764e49544091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 27/34] fix: AtpRemoteBlob: store a fetch's results together,
 and only those

maybe_fetch put() the whole entity, which lost repos that were registered
while it fetched; put it before it read the body, which left blobs without a
CID if that failed; and kept the previous content's size, CID, and dimensions.
get_or_create stored new blobs without their url.
---
 arroba/datastore_storage.py | 84 +++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 27 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 780345a..9d05f25 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -483,10 +483,13 @@ class AtpRemoteBlob(ndb.Model):
         @ndb.transactional()
         def get_or_insert():
             repos = [repo.key] if repo else []
-            blob = cls.get_or_insert(url_key, repos=repos)
+            blob = cls.get_or_insert(url_key, repos=repos, url=url)
+            changed = blob.url != url
             blob.url = url
             if repo and repo.key not in blob.repos:
                 blob.repos.append(repo.key)
+                changed = True
+            if changed:
                 blob.put()
             return blob
 
@@ -515,46 +518,73 @@ class AtpRemoteBlob(ndb.Model):
 
         url = self.url or self.key.id()
         logger.info(f'(Re)fetching blob URL {url}')
-        self.last_fetched = webutil.util.now()
+        fetched = {'last_fetched': webutil.util.now()}
 
         try:
             resp = get_fn(url, stream=True)
             # if this is our first try, give up if it's not serving.
             # otherwise, 4xx is conclusive; others like 5xx aren't
-            if resp.status_code // 100 == 4 or (not resp.ok and not self.cid):
-                logger.info('Marking blob inactive')
-                self.status = 'inactive'
+            if resp.status_code // 100 == 4:
+                fetched['status'] = 'inactive'
             resp.raise_for_status()
+
+            # check type, size
+            fetched['mime_type'] = (resp.headers.get('Content-Type')
+                                    or mimetypes.guess_type(url)[0]
+                                    or 'application/octet-stream')
+            length = resp.headers.get('Content-Length')
+            logger.info(f'Got {resp.status_code} {fetched["mime_type"]} {length} bytes {resp.url}')
+
+            try:
+                length = int(length)
+            except (TypeError, ValueError):
+                length = None  # read body and check length manually below
+
+            too_big = length and length > BLOB_MAX_BYTES
+            content = None if too_big else resp.content
         except OSError as e:
+            fetched.pop('mime_type', None)
             if not self.cid:
-                self.status = 'inactive'
+                fetched['status'] = 'inactive'
+            if 'status' in fetched:
+                logger.info('Marking blob inactive')
+            self._store_fetched(**fetched)
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
-        finally:
-            self.put()
-
-        # check type, size
-        self.mime_type = (resp.headers.get('Content-Type')
-                          or mimetypes.guess_type(url)[0]
-                          or 'application/octet-stream')
-        length = resp.headers.get('Content-Length')
-        logger.info(f'Got {resp.status_code} {self.mime_type} {length} bytes {resp.url}')
 
-        try:
-            length = self.size = int(length)
-        except (TypeError, ValueError):
-            pass  # read body and check length manually below
+        # these are all for the content we just fetched
+        self.width = self.height = self.duration = None
 
-        if self.size and self.size > BLOB_MAX_BYTES:
-            self.put()
+        if too_big:
+            self._store_fetched(cid=None, size=length, width=None, height=None,
+                                duration=None, **fetched)
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
-        digest = multihash.digest(resp.content, 'sha2-256')
-        self.cid = CID('base58btc', 1, 'raw', digest).encode('base32')
-        self.size = len(resp.content)
-        self.generate_metadata(resp.content)
-        self.status = None
-        self.put()
+        digest = multihash.digest(content, 'sha2-256')
+        self.generate_metadata(content)
+        self._store_fetched(cid=CID('base58btc', 1, 'raw', digest).encode('base32'),
+                            size=len(content), width=self.width, height=self.height,
+                            duration=self.duration, status=None, **fetched)
+
+    def _store_fetched(self, **props):
+        """Stores and updates the properties that :meth:`maybe_fetch` fetched.
+
+        Leaves other properties alone, notably :attr:`repos`, since other threads and
+        processes may have changed them in the meantime.
+
+        Args:
+          props: property values
+        """
+        @ndb.transactional()
+        def store():
+            stored = self.key.get() or self
+            stored.populate(**props)
+            stored.put()
+            return stored
+
+        stored = store()
+        if stored is not self:
+            self.populate(**stored.to_dict())
 
     def as_object(self):
         """Returns an ATProto ``blob`` object for this blob.
-- 
2.43.0


From de79970de0ac8c56652bce77f3f69cb191b8380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 28/34] fix: Storage.commit: don't retry forever if allocate
 doesn't advance

Follow-up to dd05040. DatastoreSubscribeReposTest.test_skipped_seq does this.
---
 arroba/storage.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 16b60a2..34225a3 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -536,20 +536,26 @@ class Storage:
           ValueError: if the commit is invalid, eg the path for an update or delete
             doesn't currently exist
         """
+        conflict_seq = None
+
         while True:
             seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
+            if conflict_seq and conflict_seq != seq and repo.callback:
+                repo.callback(lost_seq=conflict_seq)
 
             try:
-                commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
+                commit_data = self._commit(repo, writes, seq, repo_did=repo_did,
+                                           check_seq=seq != conflict_seq)
                 if repo.callback:
                     repo.callback(data=commit_data)
                 return commit_data
-            except BaseException as e:
+            except SeqConflict:
+                # retry with a new seq, since revs (and seqs) have to increase
+                conflict_seq = seq
+            except BaseException:
                 if repo.callback:
                     repo.callback(lost_seq=seq)
-                # retry with a new seq, since revs (and seqs) have to increase
-                if not isinstance(e, SeqConflict):
-                    raise
+                raise
 
     def _check_seq(self, repo, seq):
         """Checks that a new commit's sequence number is later than its repo's head.
@@ -565,7 +571,7 @@ class Storage:
           SeqConflict: if the repo's head already has a later sequence number
         """
 
-    def _commit(self, repo, writes, seq, repo_did=None):
+    def _commit(self, repo, writes, seq, repo_did=None, check_seq=True):
         """Separate from :meth:`commit` so that subclasses can put it in a tx."""
         assert seq
         if repo.status:
@@ -590,7 +596,8 @@ class Storage:
             # our caller's repo may be out of date
             if repo.status:
                 raise InactiveRepo(repo.did, repo.status)
-            self._check_seq(repo, seq)
+            if check_seq:
+                self._check_seq(repo, seq)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From e6f4d15fbfaecac144a2e81d87155cbf67ce3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 29/34] fix: resolve_handle: join the strings of a TXT record

---
 arroba/did.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..fb99996 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -516,9 +516,10 @@ def resolve_handle(handle, get_fn=session.get):
         if answer.canonical_name.to_text() == name:
             for rdata in answer:
                 if rdata.rdtype == TXT:
-                    text = rdata.to_text()
-                    if text.startswith('"did=did:'):
-                        return text.strip('"').removeprefix('did=')
+                    # a TXT record's value is all of its strings, joined
+                    text = b''.join(rdata.strings).decode(errors='replace')
+                    if text.startswith('did=did:'):
+                        return text.removeprefix('did=')
     except DNSException as e:
         logger.info(repr(e))
 
-- 
2.43.0


From ca0f5e1c1ba0eae028e04af522233f106c159e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 30/34] fix: rollback_plc: return the DidPlc, as documented

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index fb99996..259c219 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -321,7 +321,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From 10feaf46ac38720f2c60913fdbb9bcc54c850298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 31/34] fix: rollback_plc: ignore nullified operations

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index 259c219..26d3170 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -309,7 +309,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
     resp.raise_for_status()
-    log = resp.json()
+    log = [entry for entry in resp.json() if not entry.get('nullified')]
 
     assert len(log) >= num_operations + 1, log
     rotation_did_key = encode_did_key(rotation_key.public_key())
-- 
2.43.0


From 1b040fd9757dc67fc4ac0b4e26194af42a7e96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 32/34] fix: update_plc: check the audit log's HTTP status, and
 find the handle in alsoKnownAs

A first alias that isn't the handle was dropped.
---
 arroba/did.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arroba/did.py b/arroba/did.py
index 26d3170..861fe01 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -124,15 +124,19 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     # response is a JSON list with operations from earliest to latest
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
+    resp.raise_for_status()
     last_op = resp.json()[-1]
 
-    # merge new data into existing data
-    old_handle = last_op['operation']['alsoKnownAs'].pop(0)
+    # merge new data into existing data. the handle is the first at:// URI
+    also_known_as = last_op['operation']['alsoKnownAs']
+    old_handle = next((aka for aka in also_known_as if aka.startswith('at://')), None)
+    if old_handle:
+        also_known_as.remove(old_handle)
     if not handle:
-        assert old_handle.startswith('at://')
+        assert old_handle, also_known_as
         handle = old_handle.removeprefix('at://')
 
-    kwargs.setdefault('also_known_as', last_op['operation']['alsoKnownAs'])
+    kwargs.setdefault('also_known_as', also_known_as)
 
     # write update operation
     return write_plc(did=did, prev=last_op['cid'], handle=handle, get_fn=get_fn,
-- 
2.43.0


From a68d12262121147c798362599bc078ea78d1c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 33/34] fix: describeRepo failed output validation for a repo
 without a handle

---
 arroba/xrpc_repo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 0e2c7b8..ad5121e 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -184,10 +184,10 @@ def describe_repo(input, repo=None):
 
     return {
         'did': repo.did,
-        'handle': repo.handle,
+        'handle': repo.handle or 'handle.invalid',
         'didDoc': did_doc,
         'collections': collections,
-        'handleIsCorrect': True,
+        'handleIsCorrect': bool(repo.handle),
     }
 
 
-- 
2.43.0


From e7ae4f5f2c7d62c4ec5eba0c25d6a460dcefa9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 34/34] fix: getRepo since a rev from before a repo was
 imported left out its whole tree

---
 arroba/xrpc_sync.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 70991f1..99a9f60 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -59,6 +59,10 @@ def get_repo(input, did=None, since=None, internal=False):
         raise NotImplementedError('temporarily disabled 12 hrs after repo creation')
 
     start = util.tid_to_int(since) if since else 0
+    if start > repo.head.seq:
+        # since isn't one of our revs, eg it's from before this repo was imported, so
+        # it's not a sequence number
+        start = 0
 
     blocks_and_head = itertools.chain(
         [car.Block(repo.head.cid, repo.head.encoded)],
-- 
2.43.0

