From c8cf4bdc41fac41103c750f4b8e46f260dfcd2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 01/49] fix: BTree deletion keeps the tree balanced, counted,
 recorded and usable on nodes without counts

---
 durus/btree.py | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..4024080 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,8 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            return (node is not None and
+                    len(node.items) >= node.minimum_degree)
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +221,11 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = upper_sibling = None
+            if p > 0:
+                lower_sibling = self.nodes[p - 1]
+            if p < len(self.nodes) - 1:
+                upper_sibling = self.nodes[p + 1]
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -237,16 +241,17 @@ class BNode(PersistentObject):
                     self._count -= 1
                     self.items[p] = extreme
                 else:
-                    # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    # Case 2c: Merge the item and upper_sibling into node.
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
@@ -258,8 +263,11 @@ class BNode(PersistentObject):
                         del lower_sibling.items[-1]
                         lower_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.insert(0, lower_sibling.nodes[-1])
+                            moved = lower_sibling.nodes[-1]
+                            node.nodes.insert(0, moved)
+                            node._count += moved._count
                             del lower_sibling.nodes[-1]
+                            lower_sibling._count -= moved._count
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
@@ -269,10 +277,13 @@ class BNode(PersistentObject):
                         del upper_sibling.items[0]
                         upper_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.append(upper_sibling.nodes[0])
+                            moved = upper_sibling.nodes[0]
+                            node.nodes.append(moved)
+                            node._count += moved._count
                             del upper_sibling.nodes[0]
+                            upper_sibling._count -= moved._count
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
@@ -297,9 +308,17 @@ class BNode(PersistentObject):
                     self._p_note_change()
                     node._p_note_change()
                 assert is_big(node)
-                old_count = node._count
-                node.delete(key)
-                self._count += node._count - old_count
+                if self.items:
+                    old_count = node._count
+                    node.delete(key)
+                    self._count += node._count - old_count
+                else:
+                    # Self is the root node, and node is all that remains
+                    # below it, so it takes the place of self.  This is done
+                    # first because the key may turn out to be missing.
+                    self.items = node.items
+                    self.nodes = node.nodes
+                    self.delete(key)
             if not self.items:
                 # This can happen when self is the root node.
                 self.items = self.nodes[0].items
-- 
2.43.0


From 8a4b5842bbc5e8ca2594eea6627efe9379f93c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 02/49] fix: set_bnode_minimum_degree() compares degrees by
 value

---
 durus/btree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/btree.py b/durus/btree.py
index 4024080..3a493f9 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -604,7 +604,7 @@ class BTree(PersistentObject, collections.abc.MutableMapping):
         of the given minimum_degree, if there is such a class.
         Return True if a change was made.
         """
-        if self.root.minimum_degree is not degree:
+        if self.root.minimum_degree != degree:
             for bnode_class in BNode.__subclasses__():
                 if bnode_class.minimum_degree == degree:
                     new_tree = BTree(node_constructor=bnode_class)
-- 
2.43.0


From 2f91470d044f903822ab3f65e3885de6e37a81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 03/49] fix: save slots declared as a single string or with
 private names

---
 durus/persistent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 17aabb6..9483ff4 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -141,7 +141,15 @@ class PersistentObject (PersistentBase):
         """
         for klass in self.__class__.__mro__:
             if klass is not PersistentBase:
-                for name in getattr(klass, '__slots__', []):
+                slots = klass.__dict__.get('__slots__', ())
+                if isinstance(slots, str):
+                    slots = (slots,) # A single name.
+                for name in slots:
+                    if name.startswith('__') and not name.endswith('__'):
+                        # Private names are mangled, as in other code.
+                        prefix = klass.__name__.lstrip('_')
+                        if prefix:
+                            name = '_%s%s' % (prefix, name)
                     if (name not in ('__weakref__', '__dict__') and
                         _hasattribute(self, name)):
                         yield name
-- 
2.43.0


From 69f2a3112251a5f08ed2359d50771f4811ef643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 04/49] fix: DurusKeyError can be formatted

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From 5b3de70ef2abc724d87aee9a2734086687229bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 05/49] fix: a ghost removed from any kind of storage is a read
 conflict

---
 durus/connection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..fc89b29 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -3,7 +3,6 @@ $URL$
 $Id$
 """
 from durus.error import ConflictError, WriteConflictError, ReadConflictError
-from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -187,7 +186,7 @@ class Connection (ConnectionBase):
         oid = obj._p_oid
         try:
             pickle = self.get_stored_pickle(oid)
-        except DurusKeyError:
+        except KeyError:
             # We have a ghost but cannot find the state for it.  This can
             # happen if the object was removed from the storage as a result
             # of packing.
-- 
2.43.0


From ab0fbf372f5a8c4daf993f173288b07e27ce5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 06/49] fix: bulk_load() reads every response before raising an
 error

---
 durus/client_storage.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..d1491c8 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -12,6 +12,7 @@ from durus.storage_server import STATUS_OKAY, STATUS_KEYERROR, STATUS_INVALID
 from durus.utils import int4_to_str, read, write, join_bytes, write_all
 from durus.utils import read_int4, write_int4, write_int4_str, iteritems
 from durus.utils import as_bytes
+import sys
 
 
 class ClientStorage (Storage):
@@ -125,7 +126,17 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        records = []
+        error = None
+        for oid in oids:
+            # Every response must be consumed, even after an error.
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError):
+                if error is None:
+                    error = sys.exc_info()[1]
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From 5026bb7b1946742132b34d424598ad1a50526208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 07/49] fix: a change counts as an access, so that a blind
 write can conflict

---
 durus/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index fc89b29..f486d81 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -214,6 +214,8 @@ class Connection (ConnectionBase):
         made into ghosts, on abort.
         """
         # assert obj._p_connection is self
+        if obj._p_serial != self.transaction_serial:
+            self.note_access(obj) # Writing counts as access, for conflicts.
         self.changed[obj._p_oid] = obj
 
     def shrink_cache(self):
-- 
2.43.0


From da976543e1e1e0f2d68e5c64a4d8a0aeb27c5782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 08/49] fix: a commit that fails for any reason can be retried
 or aborted

---
 durus/connection.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index f486d81..89f74b6 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -262,29 +262,39 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
+            objects_found = []
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    finally:
+                        objects_found.extend(writer.objects_found)
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
-                for oid, obj in iteritems(new_objects):
+            except:
+                # Nothing was stored.  New objects become unsaved again, and
+                # the changes are still there for the next commit or abort.
+                for obj in objects_found:
+                    oid = obj._p_oid
                     obj._p_oid = None
                     del self.cache[oid]
+                    self.cache.recent_objects.discard(obj)
                     obj._p_set_status_unsaved()
                     obj._p_connection = None
+                for obj in self.changed.values():
+                    obj._p_set_status_unsaved()
+                self.storage.begin() # Forget the records.
                 raise
             self.changed.clear()
         self.shrink_cache()
-- 
2.43.0


From 77698edfd52f478e2c21d3e81e4b9c1364d6498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 09/49] fix: a reopened SqliteStorage does not allocate the
 highest stored oid again

---
 durus/sqlite_storage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..2611761 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -84,14 +84,14 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return the first OID, as integer, above all those in the database.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
+        if v is None or v[0] is None:
             return 0
-        return v[0]
+        return v[0] + 1
 
     def load(self, oid):
         """(str) -> str
-- 
2.43.0


From 9e675835df1e8a70c78894e44ff3a1cb84385897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 10/49] fix: SqliteStorage can generate all of its records

---
 durus/sqlite_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 2611761..421dd5c 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -146,13 +146,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
         for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+            oid = int8_to_str(oid)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From f9cc83f7e5ce4cd259d0c1ff7a91868a1d47aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 11/49] fix: SqliteStorage pack does not delete objects
 relinked meanwhile, and invalidates those it removes

---
 durus/sqlite_storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 421dd5c..97a95bd 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -203,7 +203,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return (x for x in []) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
@@ -236,10 +236,10 @@ class SqliteStorage(Storage):
             for oid in self._list_all_oids():
                 if oid not in alive:
                     dead.add(oid)
-            self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
+            # they must be gone before a commit can refer to one of them
             self._delete(dead)
+            self.invalid.update(dead)
+            self.pack_extra = None
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return packer()
-- 
2.43.0


From 2372dbcd360164207c68174c02159a1974b9681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 12/49] fix: SqliteStorage rolls back failed commits and packs

---
 durus/sqlite_storage.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 97a95bd..c97e0c6 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -113,17 +113,23 @@ class SqliteStorage(Storage):
         self.pending_records.append(record)
 
     def _store_records(self, records):
+        oids = []
         def gen_items(records):
             for record in records:
                 oid, data, refdata = unpack_record(record)
                 yield str_to_int8(oid), as_bytes(data), as_bytes(refdata)
-                if self.pack_extra is not None:
-                    # ensure object and refs are marked alive and not removed
-                    self.pack_extra.append(oid)
-        c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+                oids.append(oid)
+        try:
+            c = self._conn.cursor()
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            self._conn.rollback()
+            raise
+        if self.pack_extra is not None:
+            # ensure object and refs are marked alive and not removed
+            self.pack_extra.extend(oids)
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
@@ -193,10 +199,13 @@ class SqliteStorage(Storage):
         def gen_ids():
             for oid in oids:
                 yield (str_to_int8(oid),)
-        c = self._conn.cursor()
-        c.executemany('DELETE FROM objects WHERE id = ?', gen_ids())
-        self._commit()
-
+        try:
+            c = self._conn.cursor()
+            c.executemany('DELETE FROM objects WHERE id = ?', gen_ids())
+            self._commit()
+        except:
+            self._conn.rollback()
+            raise
 
     def get_packer(self):
         if (self.pending_records or
@@ -242,7 +251,13 @@ class SqliteStorage(Storage):
             self.pack_extra = None
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
-        return packer()
+        def finishing_packer():
+            try:
+                for step in packer():
+                    yield step
+            finally:
+                self.pack_extra = None # also after a failure
+        return finishing_packer()
 
     def pack(self):
         for iteration in self.get_packer():
-- 
2.43.0


From 16b135ad293552d5dfd332c790beb75f30284618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 13/49] fix: SqliteStorage raises KeyError for oids beyond its
 integer range

---
 durus/sqlite_storage.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index c97e0c6..7320190 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -93,14 +93,19 @@ class SqliteStorage(Storage):
             return 0
         return v[0] + 1
 
+    def _fetch(self, query, oid):
+        c = self._conn.cursor()
+        try:
+            c.execute(query, (str_to_int8(oid),))
+        except OverflowError:
+            return None # sqlite integers are signed
+        return c.fetchone()
+
     def load(self, oid):
         """(str) -> str
         Return object record identified by 'oid'.
         """
-        c = self._conn.cursor()
-        c.execute('SELECT id, data, refs FROM objects WHERE id = ?',
-                (str_to_int8(oid),))
-        v = c.fetchone()
+        v = self._fetch('SELECT id, data, refs FROM objects WHERE id = ?', oid)
         if v is None:
             raise KeyError(oid)
         return pack_record(int8_to_str(v[0]), v[1], v[2])
@@ -187,10 +192,7 @@ class SqliteStorage(Storage):
         return False
 
     def _get_refs(self, oid):
-        c = self._conn.cursor()
-        c.execute('SELECT refs FROM objects WHERE id = ?',
-                (str_to_int8(oid),))
-        v = c.fetchone()
+        v = self._fetch('SELECT refs FROM objects WHERE id = ?', oid)
         if v is None:
             raise KeyError(oid)
         return split_oids(v[0])
-- 
2.43.0


From a2af5c963aa41b8ebc041d4f8b7e12f48e455149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 14/49] fix: FileStorage2.begin() forgets records left by a
 failed commit

---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From 4b3fb0e63b8e8550249acc1e9dc40cd58ba0c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 15/49] fix: FileStorage2 removes the transaction that it could
 not complete

---
 durus/file_storage2.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..0771bf6 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -148,11 +148,19 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
-        self.fp.flush()
-        self.fp.fsync()
+        self.fp.seek_end()
+        start = self.fp.tell()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+            self.fp.flush()
+            self.fp.fsync()
+        except:
+            # Revert before raising.
+            self.fp.seek(start)
+            self.fp.truncate()
+            raise
         if is_logging(20):
             log(20, "Transaction at [%s] end=%s" % (datetime.now(),
                                                     self.fp.tell()))
-- 
2.43.0


From f88feb2c0f7bbd8410fa05a26639123f8f7a4a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 16/49] fix: FileStorage2.get_packer() declines like other
 storages, and a failed pack can be repeated

---
 durus/file_storage2.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 0771bf6..31ff348 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -268,13 +268,19 @@ class FileStorage2(Storage):
         called, up to _PACK_INCREMENT records will be packed.  Note that the
         generator must be exhausted before calling get_packer() again.
         """
-        assert not self.fp.is_temporary()
-        assert not self.fp.is_readonly()
-        if self.pack_extra is not None or self.pending_records:
-            return ()
-        else:
-            self.pack_extra = []
-            return self._packer()
+        if (self.pending_records or
+            self.pack_extra is not None or
+            self.fp.is_temporary() or
+            self.fp.is_readonly()):
+            return (x for x in []) # Don't pack.
+        self.pack_extra = []
+        def packer():
+            try:
+                for step in self._packer():
+                    yield step
+            finally:
+                self.pack_extra = None # also after a failure
+        return packer()
 
     def pack(self):
         for z in self.get_packer():
-- 
2.43.0


From f433236223ba4ee032aaf198388c3de000a9d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 17/49] fix: a storage is usable right after
 create_from_records()

---
 durus/file_storage2.py  | 2 ++
 durus/sqlite_storage.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 31ff348..1be4beb 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -354,3 +354,5 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        self.oid = max([-1] + [str_to_int8(oid) for oid in index])
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 7320190..18d9d0b 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -277,3 +277,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid()
-- 
2.43.0


From 9f764cbe7decaf129a6542302c0239e01f64a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 18/49] fix: a connection does not give a new object the oid of
 a removed object that it still holds

---
 durus/connection.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/connection.py b/durus/connection.py
index 89f74b6..a48823c 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -59,7 +59,6 @@ class Connection (ConnectionBase):
         self.reader = ObjectReader(self)
         self.changed = {}
         self.invalid_oids = set()
-        self.new_oid = storage.new_oid # needed by serialize
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
         if self.root is None:
@@ -147,6 +146,17 @@ class Connection (ConnectionBase):
 
     __getitem__ = get
 
+    def new_oid(self):
+        """() -> oid:str
+        Return an unused oid.  Needed by serialize.
+        A storage may reuse the oid of an object that was removed by a pack,
+        but not for as long as that object is still here.
+        """
+        oid = self.storage.new_oid()
+        while self.cache.get(oid) is not None:
+            oid = self.storage.new_oid()
+        return oid
+
     def get_crawler(self, start_oid=ROOT_OID, batch_size=100):
         """(start_oid:str = ROOT_OID, batch_size:int = 100) ->
             sequence(PersistentObject)
-- 
2.43.0


From 8fb33152df35be458e393bbf4facb44807acb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 19/49] fix: FileStorage pack invalidates exactly the objects
 it removes, when it removes them

---
 durus/file_storage.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..0d1fafe 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -147,18 +147,19 @@ class FileStorage (Storage):
             file.fsync()
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
-            # Invalidate oids that have been removed.
-            for hole in shelf.get_offset_map().gen_holes():
-                yield hole
-                oid = int8_to_str(hole)
-                if self.shelf.get_position(oid) is not None:
-                    assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+            # Find the oids that have been removed.
+            removed = set()
+            for oid in self.shelf:
+                if oid not in shelf:
+                    removed.add(oid)
+                yield oid
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
             for oid in self.pack_extra:
-                shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
+                for name, old, new in shelf.store(
+                    self.gen_oid_record(start_oid=oid, seen=seen)):
+                    removed.discard(name)
             file.flush()
             file.fsync()
             if not self.shelf.get_file().is_temporary():
@@ -166,6 +167,7 @@ class FileStorage (Storage):
                 self.shelf.get_file().close()
             shelf.get_file().rename(file_path)
             self.shelf = shelf
+            self.invalid.update(removed)
             self.pack_extra = None
             yield "finished %s" % datetime.now()
         return packer()
-- 
2.43.0


From 6f74284dba7e957aadc852db545baf1508dd79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 20/49] fix: a failed FileStorage pack can be repeated

---
 durus/file_storage.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 0d1fafe..800bfdb 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -132,11 +132,11 @@ class FileStorage (Storage):
             self.shelf.get_file().is_temporary() or
             self.shelf.get_file().is_readonly()):
             return (x for x in []) # Don't pack.
-        self.pack_extra = set()
         file_path = self.shelf.get_file().get_name()
         file = File(file_path + '.pack')
         file.truncate() # obtains lock and clears.
         assert file.tell() == 0
+        self.pack_extra = set()
         def packer():
             yield "started %s" % datetime.now()
             seen = IntSet()
@@ -170,7 +170,17 @@ class FileStorage (Storage):
             self.invalid.update(removed)
             self.pack_extra = None
             yield "finished %s" % datetime.now()
-        return packer()
+        def finishing_packer():
+            try:
+                for step in packer():
+                    yield step
+            except:
+                if self.shelf.get_file() is not file:
+                    file.close()
+                raise
+            finally:
+                self.pack_extra = None # also after a failure
+        return finishing_packer()
 
     def pack(self):
         for iteration in self.get_packer():
-- 
2.43.0


From d1fb97bb8d6ed84ed9469a124dfab2499ae39f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 21/49] fix: data that could not be written is not left in a
 buffer to be written later

---
 durus/file.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..0479247 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -17,17 +17,17 @@ class File (object):
     """
     def __init__(self, name=None, readonly=False, **kwargs):
         if name is None:
-            self.file = NamedTemporaryFile(**kwargs)
+            self.file = NamedTemporaryFile(buffering=0, **kwargs)
         else:
             if exists(name):
                 if readonly:
                     self.file = open(name, 'rb')
                 else:
-                    self.file = open(name, 'r+b')
+                    self.file = open(name, 'r+b', 0)
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b')
+                self.file = open(name, 'w+b', 0)
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
@@ -52,8 +52,13 @@ class File (object):
     def read(self, n=None):
         if n is None:
             return self.file.read()
-        else:
-            return self.file.read(n)
+        result = self.file.read(n)
+        while len(result) < n:
+            more = self.file.read(n - len(result))
+            if not more:
+                break
+            result += more
+        return result
 
     def tell(self):
         return self.file.tell()
@@ -74,7 +79,7 @@ class File (object):
         if exists(name):
             os.unlink(name)
         os.rename(old_name, name)
-        self.file = open(name, 'r+b')
+        self.file = open(name, 'r+b', 0)
         self.obtain_lock()
 
     def obtain_lock(self):
@@ -113,9 +118,9 @@ class File (object):
 
     def write(self, s):
         self.obtain_lock()
-        self.file.write(s)
-        # This flush helps the file knows where it ends.
-        self.file.flush()
+        # There is no buffer, so nothing is left to be written after a failure.
+        while s:
+            s = s[self.file.write(s):]
 
     def truncate(self):
         self.obtain_lock()
-- 
2.43.0


From 8e96a21f9e6aedb915668e52180640cc496a8cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 22/49] fix: opening a new file never truncates one that was
 created meanwhile

---
 durus/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file.py b/durus/file.py
index 0479247..ef3e84e 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -27,7 +27,7 @@ class File (object):
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b', 0)
+                self.file = open(name, 'x+b', 0)
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
-- 
2.43.0


From 3d5ab9a0d65f542d9c9ef7a7fafe563cee8a40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 23/49] fix: a lock obtained on a file that a pack has replaced
 is refused

---
 durus/file.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/durus/file.py b/durus/file.py
index ef3e84e..80e3de8 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -101,8 +101,19 @@ class File (object):
                     raise IOError("Unable to obtain lock")
             else:
                 fcntl.flock(self.file, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                if not self._has_name():
+                    # A pack replaced the file after it was opened here.
+                    fcntl.flock(self.file, fcntl.LOCK_UN)
+                    raise IOError("File was replaced")
             self.has_lock = True
 
+    def _has_name(self):
+        try:
+            current = os.stat(self.get_name())
+        except OSError:
+            return True
+        return os.path.samestat(current, os.fstat(self.file.fileno()))
+
     def release_lock(self):
         """
         Make sure that we do not retain an exclusive lock on self.file.
-- 
2.43.0


From 7ca0894847c89f4babb1fb7787dbce6faddb5f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 24/49] fix: there is a complete file with the storage's name
 at every moment of a pack

---
 durus/file.py          | 39 +++++++++++++++++++++++++++++++++------
 durus/file_storage.py  |  5 +----
 durus/file_storage2.py |  6 +-----
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 80e3de8..8146288 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -75,12 +75,39 @@ class File (object):
             return
         assert not self.is_temporary()
         self.obtain_lock()
-        self.close()
-        if exists(name):
-            os.unlink(name)
-        os.rename(old_name, name)
-        self.file = open(name, 'r+b', 0)
-        self.obtain_lock()
+        if os.name == 'nt':
+            self.close()
+            if exists(name):
+                os.unlink(name)
+            os.rename(old_name, name)
+            self.file = open(name, 'r+b', 0)
+            self.obtain_lock()
+        else:
+            # This replaces any existing file atomically.  The file stays
+            # open and locked.
+            os.rename(old_name, name)
+            self.file.name = name
+
+    def replace(self, other, backup_name):
+        """(other:File, backup_name:str)
+        Give this file the name of the other one, which gets the backup_name,
+        and is closed.
+        """
+        name = other.get_name()
+        if hasattr(os, 'link') and os.name != 'nt':
+            # There is a complete file with the name at every moment.
+            if exists(backup_name):
+                os.unlink(backup_name)
+            try:
+                os.link(name, backup_name)
+            except OSError:
+                other.rename(backup_name) # The file system has no links.
+            self.rename(name)
+            other.close()
+        else:
+            other.rename(backup_name)
+            other.close()
+            self.rename(name)
 
     def obtain_lock(self):
         """
diff --git a/durus/file_storage.py b/durus/file_storage.py
index 800bfdb..2a48e44 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -162,10 +162,7 @@ class FileStorage (Storage):
                     removed.discard(name)
             file.flush()
             file.fsync()
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
-            shelf.get_file().rename(file_path)
+            file.replace(self.shelf.get_file(), file_path + '.prepack')
             self.shelf = shelf
             self.invalid.update(removed)
             self.pack_extra = None
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 1be4beb..adda11a 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -251,11 +251,7 @@ class FileStorage2(Storage):
         self._write_index(packed, index)
         packed.flush()
         packed.fsync()
-        if self.fp.is_temporary():
-            self.fp.close()
-        else:
-            self.fp.rename(prepack_name)
-        packed.rename(name)
+        packed.replace(self.fp, prepack_name)
         self.fp = packed
         for oid in self.index:
             if oid not in index:
-- 
2.43.0


From e8cd1ea465509be33d333cd6845920bb8f8b1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 25/49] fix: Shelf transactions are appended with their length
 first, and synced at commit

---
 durus/file_storage.py |  2 +-
 durus/shelf.py        | 38 ++++++++++++++++++++++----------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 2a48e44..235a7fe 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -78,7 +78,7 @@ class FileStorage (Storage):
             raise ValueError("oid %r is a surprise" % oid)
 
     def end(self, handle_invalidations=None):
-        self.shelf.store(iteritems(self.pending_records))
+        self.shelf.store(iteritems(self.pending_records), sync=True)
         if is_logging(20):
             shelf_file = self.shelf.get_file()
             shelf_file.seek_end()
diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..1429d80 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -4,7 +4,7 @@ $Id$
 """
 from durus.file import File
 from durus.utils import int8_to_str, str_to_int8, read_int8_str, IntArray
-from durus.utils import iteritems, next, as_bytes
+from durus.utils import iteritems, join_bytes, next, as_bytes
 from durus.utils import read, read_int8, write, write_int8, ShortRead, xrange
 import sys
 
@@ -187,35 +187,41 @@ class Shelf (object):
             self.unused_name_generator = generate_unused_names()
         return next(self.unused_name_generator)
 
-    def store(self, name_value_sequence):
-        """([(str, str)]) -> [(str, int|None, int)]
+    def store(self, name_value_sequence, sync=False):
+        """([(str, str)], sync:bool=False) -> [(str, int|None, int)]
         Record all of the items in the sequence.
+        If sync is true, make sure that they are on the disk.
         Return a list of triples, each giving a name, an old position (or None
         if this is a new name), and a new position.
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
+        new_position = start + 8
         result = []
         index = {}
+        data = []
+        for name, value in name_value_sequence:
+            old_position = self.get_position(name)
+            index[name] = new_position
+            result.append((name, old_position, new_position))
+            record = as_bytes(name) + as_bytes(value)
+            data.append(int8_to_str(len(record)))
+            data.append(record)
+            new_position += 8 + len(record)
         try:
-            for name, value in name_value_sequence:
-                new_position = self.file.tell()
-                old_position = self.get_position(name)
-                index[name] = new_position
-                result.append((name, old_position, new_position))
-                write_int8(self.file, len(name) + len(value))
-                write(self.file, name)
-                write(self.file, value)
+            # This only ever adds to the end of the file, and starts with the
+            # length, so that an incomplete transaction is recognized.
+            self.file.seek_end()
+            write(self.file, int8_to_str(new_position - start - 8))
+            write(self.file, join_bytes(data))
+            if sync:
+                self.file.flush()
+                self.file.fsync()
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From 6df7a741296f00adad0f6401bd22c20a60fa25c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 26/49] fix: a Shelf transaction that is cut off in its last
 record is not accepted

---
 durus/shelf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index 1429d80..348ea77 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -304,6 +304,10 @@ def read_transaction_offsets(file, repair=False):
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
+        file.seek(0, 2) # seek end
+        if file.tell() < transaction_end:
+            raise ShortRead
+        file.seek(transaction_start + 8)
         transaction_offsets = {}
         while file.tell() < transaction_end:
             position = file.tell()
-- 
2.43.0


From d4a25d93d1d8f6d74208ac2dbbba947a1de4fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 27/49] fix: IntSet.add() makes room for the integer

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..ccd36ef 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -521,7 +521,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(max(n + 1, int(n * 1.2)))
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0


From 38dc9a40dd102af33d7144272e264426e8cb7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 28/49] fix: iterating over arrays is not disturbed by other
 accesses

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ccd36ef..ca19d35 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -241,8 +241,8 @@ class ByteArray (object):
         return self.size
 
     def __iter__(self):
-        self.file.seek(self.start)
         for j in xrange(self.size):
+            self.file.seek(self.start + j)
             byte = read(self.file, 1)
             assert len(byte) == 1
             yield byte
-- 
2.43.0


From 385066a1632f752371ac34b8851003c9a717857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 29/49] fix: an inherited abstract socket can be shown

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..0393973 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -214,9 +214,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes):
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(as_bytes('\0'), as_bytes('@'))
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0


From db9f9d851a87ceb27fd4ca0d381d7160f6de39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 30/49] fix: the process umask is restored when binding a
 socket fails

---
 durus/storage_server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 0393973..f8c17c8 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -168,6 +168,13 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
     def bind_socket(self, s):
         if self.umask is not None:
             old_umask = umask(self.umask)
+        try:
+            self._bind_socket(s)
+        finally:
+            if self.umask is not None:
+                umask(old_umask)
+
+    def _bind_socket(self, s):
         try:
             s.bind(self.filename)
         except socket.error:
@@ -200,8 +207,6 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                 gid = getgrnam(self.group).gr_gid
         if self.owner is not None or self.group is not None:
             chown(self.filename, uid, gid)
-        if self.umask is not None:
-            umask(old_umask)
 
     def close(self, s):
         s.close()
-- 
2.43.0


From a1aba7eef9cd42387a1d545b03362b74dccc21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 31/49] fix: PersistentSet.difference_update() accepts the set
 itself

---
 durus/persistent_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/persistent_set.py b/durus/persistent_set.py
index 96b7686..226a9a3 100644
--- a/durus/persistent_set.py
+++ b/durus/persistent_set.py
@@ -158,6 +158,8 @@ class PersistentSet (PersistentObject, collections.abc.MutableSet):
 
     def difference_update(self, other):
         self._p_note_change()
+        if isinstance(other, PersistentSet):
+            other = other.s # perhaps of this very set
         return self.s.difference_update(other)
 
     def intersection(self, *others):
-- 
2.43.0


From d81027102820c1dc9cfe1ebaa5cf60f5a5a7d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 32/49] fix: the extension accepts attribute names that cannot
 be encoded or contain nulls

---
 durus/_persistent.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..5aaa766 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -160,17 +160,40 @@ pb_note_access(PersistentBaseObject *self)
 		return 1;
 }
 
+/* Like load_triggering_name(), for any attribute name. */
+static int
+triggers_load(PyObject *name)
+{
+#if PY_VERSION_HEX < 0x03000000
+	return load_triggering_name(AttributeName_AsString(name));
+#else
+	const char *sname;
+	Py_ssize_t n = PyUnicode_GET_LENGTH(name);
+	if (n > 2 && PyUnicode_READ_CHAR(name, 0) == '_' &&
+	    PyUnicode_READ_CHAR(name, 1) == 'p' &&
+	    PyUnicode_READ_CHAR(name, 2) == '_')
+		return 0;
+	if (!PyUnicode_IS_ASCII(name))
+		return 1; /* perhaps it can't be encoded */
+	sname = AttributeName_AsString(name);
+	if (sname == NULL) {
+		PyErr_Clear();
+		return 1;
+	}
+	if (strlen(sname) != (size_t)n)
+		return 1; /* contains a null character */
+	return load_triggering_name(sname);
+#endif
+}
+
 static PyObject *
 pb_getattro(PersistentBaseObject *self, PyObject *name)
 {
-	const char *sname = NULL;
-	if (AttributeName_Check(name)) {
-	    sname = AttributeName_AsString(name);
-	} else {
+	if (!AttributeName_Check(name)) {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
-	if (load_triggering_name(sname)) {
+	if (triggers_load(name)) {
 		if (!pb_load(self))
 			return NULL;
 		if (!pb_note_access(self))
@@ -182,14 +205,11 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 static int
 pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 {
-	const char *sname = NULL;
-	if (AttributeName_Check(name)) {
-	    sname = AttributeName_AsString(name);
-	} else {
+	if (!AttributeName_Check(name)) {
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
-	if (load_triggering_name(sname)) {
+	if (triggers_load(name)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
 				return -1;
-- 
2.43.0


From 8998635fc9c7bed183c4257f0003d09e6cbbabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 33/49] fix: the extension does not follow a missing or foreign
 _p_connection

---
 durus/_persistent.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 5aaa766..afb9b7a 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -90,6 +90,8 @@ pb_clear(PersistentBaseObject *self)
 }
 
 
+static PyTypeObject ConnectionBase_Type;
+
 /* Returns true if accessing 'name' requires that the object be loaded.
  * Don't trigger a load for any attribute starting with "_p_".	The names
  * "__repr__", "__class__", and "__setstate__" are also exempt. */
@@ -152,6 +154,23 @@ pb_note_access(PersistentBaseObject *self)
 {
 	ConnectionBaseObject *connection;
 	connection = (ConnectionBaseObject *)self->p_connection;
+	if (self->p_connection == NULL) {
+		PyErr_SetString(PyExc_AttributeError, "_p_connection");
+		return 0;
+	}
+	if (self->p_connection != Py_None &&
+	    !PyObject_TypeCheck(self->p_connection, &ConnectionBase_Type)) {
+		/* not a real connection: it can't be cast */
+		int same;
+		PyObject *serial = PyObject_GetAttrString(
+			self->p_connection, "transaction_serial");
+		if (serial == NULL)
+			return 0;
+		same = (self->p_serial == serial);
+		Py_DECREF(serial);
+		return same || call_method(self->p_connection, "note_access",
+			(PyObject *)self);
+	}
 	if (self->p_connection != Py_None &&
 	    self->p_serial != connection->transaction_serial) {
 		return call_method(
-- 
2.43.0


From 522878caed39ff09152be9de4b0a900d47822a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 34/49] fix: the server checks the records of a transaction
 before it stores any of them

---
 durus/storage_server.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index f8c17c8..43b40ff 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -5,7 +5,7 @@ $Id$
 from datetime import datetime
 from durus.error import ReadConflictError, ConflictError
 from durus.logger import log, is_logging
-from durus.serialize import extract_class_name, split_oids
+from durus.serialize import extract_class_name, split_oids, unpack_record
 from durus.utils import int4_to_str, str_to_int4, str_to_int8, read, write
 from durus.utils import read_int4, read_int4_str, write_int4_str
 from durus.utils import join_bytes, write_all, next, as_bytes
@@ -391,32 +391,43 @@ class StorageServer (object):
             return # client decided not to commit (e.g. conflict)
         logging_debug = is_logging(10)
         logging_debug and log(10, 'Committing %s bytes', len(tdata))
-        self.storage.begin()
         i = 0
         oids = []
+        records = []
         while i < len(tdata):
-            rlen = str_to_int4(tdata[i:i+4])
+            rlen = len(tdata) >= i + 4 and str_to_int4(tdata[i:i+4])
             i += 4
             oid = tdata[i:i+8]
             record = tdata[i+8:i+rlen]
             i += rlen
+            if rlen < 20 or i > len(tdata):
+                raise ClientError("incomplete transaction")
+            record_oid, data, refs = unpack_record(record)
+            if record_oid != oid or len(refs) % 8 != 0 or (
+                str_to_int4(record[8:12]) != len(data)):
+                raise ClientError("malformed record for oid: %r" % oid)
             if logging_debug:
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
                     str_to_int8(oid), rlen, class_name)
-            self.storage.store(oid, record)
             oids.append(oid)
-        assert i == len(tdata)
+            records.append(record)
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
                 if oid_set.intersection(other_client.unused_oids):
                     raise ClientError("invalid oid: %r" % oid)
+        self.storage.begin()
         try:
+            for oid, record in zip(oids, records):
+                self.storage.store(oid, record)
             self.storage.end(handle_invalidations=self._handle_invalidations)
         except ConflictError:
             log(20, 'Conflict during commit')
             write(s, STATUS_INVALID)
+        except Exception:
+            self.storage.begin() # Forget the records.
+            raise
         else:
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
-- 
2.43.0


From d44f796b5d38acb03f01cad8a6fee5ef68ac7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 35/49] fix: other clients learn of a commit even when its
 client is already gone

---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 43b40ff..cdedeb2 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -432,12 +432,13 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            # This can fail, and the transaction is committed anyway.
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From 3ab8b64b725e363c0216b17cae8c2f98fbf26c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 36/49] fix: the server survives failing commands and packs

---
 durus/storage_server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index cdedeb2..f6355a7 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -287,8 +287,8 @@ class StorageServer (object):
                         # command from client
                         try:
                             self.handle(s)
-                        except (ClientError, socket.error, socket.timeout,
-                            IOError):
+                        except Exception:
+                            # The client is disconnected, whatever it did.
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
@@ -308,6 +308,10 @@ class StorageServer (object):
                         log(20, 'gc at %s' % datetime.now())
                         self.packer = None # done packing
                         self.bytes_since_pack = 0 # reset
+                    except Exception:
+                        log(30, 'gc failed: %s', sys.exc_info()[1])
+                        self.packer = None
+                        self.bytes_since_pack = 0 # wait before trying again
         finally:
             self.address.close(sock)
 
-- 
2.43.0


From 09d7fc9bb8fe0c7022f1662722707dd57aaab4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 37/49] fix: db_renumber keeps references to the root, and its
 class

---
 bin/db_renumber.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/bin/db_renumber.py b/bin/db_renumber.py
index 16625cf..756d774 100755
--- a/bin/db_renumber.py
+++ b/bin/db_renumber.py
@@ -11,9 +11,9 @@ from tempfile import TemporaryFile
 import sys
 
 if sys.version < "3":
-    from cPickle import dump, load
+    from cPickle import Pickler, Unpickler
 else:
-    from pickle import dump, load
+    from pickle import Pickler, Unpickler
 
 def usage():
     print("%s <old-file-storage> <new-file-storage>" % sys.argv[0])
@@ -29,13 +29,21 @@ def main(old_file, new_file):
     connection = Connection(sys.argv[1])
     tmpfile = TemporaryFile()
     print("pickling from " + old_file)
-    dump(connection.get_root().__getstate__(), tmpfile, 2)
-    connection = None
+    # References to the root stay references to the root.
+    root = connection.get_root()
+    pickler = Pickler(tmpfile, 2)
+    pickler.persistent_id = lambda x: 'root' if x is root else None
+    pickler.dump(root.__getstate__())
+    root_class = root.__class__
+    root = pickler = connection = None
     tmpfile.seek(0)
-    connection2 = Connection(sys.argv[2])
+    connection2 = Connection(sys.argv[2], root_class=root_class)
     print("unpickling")
-    connection2.get_root().__setstate__(load(tmpfile))
-    connection2.get_root()._p_note_change()
+    root2 = connection2.get_root()
+    unpickler = Unpickler(tmpfile)
+    unpickler.persistent_load = lambda name: root2
+    root2.__setstate__(unpickler.load())
+    root2._p_note_change()
     print("commit to " + new_file)
     connection2.commit()
     print("pack")
-- 
2.43.0


From 7beb05feddbb6d9645e557893736ce1897a29b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 38/49] fix: a crawler does not use records older than what the
 connection knows

---
 durus/connection.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/durus/connection.py b/durus/connection.py
index a48823c..82e68e5 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -37,6 +37,9 @@ class Connection (ConnectionBase):
         Number of calls to commit() or abort() since this instance was created.
         This is used to maintain consistency, and to implement LRU replacement
         in the cache.
+      invalidation_serial: int
+        Number of times that this connection has handled invalidations within
+        a transaction.
     """
 
     def __init__(self, storage, cache_size=100000, root_class=None):
@@ -59,6 +62,7 @@ class Connection (ConnectionBase):
         self.reader = ObjectReader(self)
         self.changed = {}
         self.invalid_oids = set()
+        self.invalidation_serial = 0
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
         if self.root is None:
@@ -170,10 +174,18 @@ class Connection (ConnectionBase):
         """
         oid_record_sequence = self.storage.gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
+        start = self.transaction_serial, self.invalidation_serial
         for oid, record in oid_record_sequence:
             obj = self.cache.get(oid)
             if obj is not None and not obj._p_is_ghost():
                 yield obj
+            elif start != (self.transaction_serial, self.invalidation_serial):
+                # The record may be older than what this connection knows.
+                obj = self.get(oid)
+                if obj is not None:
+                    if obj._p_is_ghost():
+                        obj._p_load_state()
+                    yield obj
             else:
                 record_oid, data, refdata = unpack_record(record)
                 if obj is None:
@@ -316,6 +328,7 @@ class Connection (ConnectionBase):
         this transaction.  If so, raise the appropriate conflict exception.
         """
         conflicts = []
+        self.invalidation_serial += 1
         for oid in oids:
             obj = self.cache.get(oid)
             if obj is None:
-- 
2.43.0


From a58fac1552349f9c9a63dc3597dbfde9d08e1f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 39/49] fix: a storage file that needs repair is not kept open
 and locked

The exception was part of a reference cycle, with the file, so opening the
file again with repair=True failed until the next garbage collection.
---
 durus/shelf.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 348ea77..e7cbf45 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -6,7 +6,6 @@ from durus.file import File
 from durus.utils import int8_to_str, str_to_int8, read_int8_str, IntArray
 from durus.utils import iteritems, join_bytes, next, as_bytes
 from durus.utils import read, read_int8, write, write_int8, ShortRead, xrange
-import sys
 
 
 class Shelf (object):
@@ -318,14 +317,13 @@ def read_transaction_offsets(file, repair=False):
         if file.tell() != transaction_end:
             raise ShortRead
         return transaction_offsets
-    except ShortRead:
+    except ShortRead as e:
         position = file.tell()
         if position > transaction_start:
             if repair:
                 file.seek(transaction_start)
                 file.truncate()
             else:
-                e = sys.exc_info()[1]
                 e.args = repr(dict(
                     transaction_start=transaction_start,
                     transaction_end = transaction_end,
-- 
2.43.0


From 44838d7b2854ca3140134b04fea27815d7752ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 40/49] fix: a pack that fails does not keep its file locked

Depending on what else referred to the exception, the next attempt to pack
failed, too.
---
 durus/file_storage.py  |  6 +++++-
 durus/file_storage2.py | 13 +++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 235a7fe..8d23d8c 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -134,7 +134,11 @@ class FileStorage (Storage):
             return (x for x in []) # Don't pack.
         file_path = self.shelf.get_file().get_name()
         file = File(file_path + '.pack')
-        file.truncate() # obtains lock and clears.
+        try:
+            file.truncate() # obtains lock and clears.
+        except:
+            file.close()
+            raise
         assert file.tell() == 0
         self.pack_extra = set()
         def packer():
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index adda11a..5c3404d 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -205,11 +205,8 @@ class FileStorage2(Storage):
                 self, start_oid=start_oid, batch_size=batch_size):
                 yield item
 
-    def _packer(self):
-        name = self.fp.get_name()
-        prepack_name = name + '.prepack'
-        pack_name = name + '.pack'
-        packed = File(pack_name)
+    def _packer(self, packed):
+        prepack_name = self.fp.get_name() + '.prepack'
         if len(packed) > 0:
             # packed contains data left from an incomplete pack attempt.
             packed.seek(0)
@@ -271,11 +268,15 @@ class FileStorage2(Storage):
             return (x for x in []) # Don't pack.
         self.pack_extra = []
         def packer():
+            packed = None
             try:
-                for step in self._packer():
+                packed = File(self.fp.get_name() + '.pack')
+                for step in self._packer(packed):
                     yield step
             finally:
                 self.pack_extra = None # also after a failure
+                if packed is not None and packed is not self.fp:
+                    packed.close()
         return packer()
 
     def pack(self):
-- 
2.43.0


From 612eadd1ff36a0f14af0a19babe64066f4aecb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 41/49] fix: a reference to a missing object cannot exhaust the
 memory during a pack

---
 durus/file_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 8d23d8c..50fd8ef 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -108,8 +108,8 @@ class FileStorage (Storage):
                 oid = heapq.heappop(todo)
                 if str_to_int8(oid) in seen:
                     continue
+                record = self.load(oid) # before there is space for the oid
                 seen.add(str_to_int8(oid))
-                record = self.load(oid)
                 record_oid, data, refdata = unpack_record(record)
                 assert oid == record_oid
                 for ref_oid in split_oids(refdata):
-- 
2.43.0


From c04a748d218cdcd41d8cc13fac329434a998a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:13 +0000
Subject: [PATCH 42/49] fix: a client stays in step with the server when
 handling invalidations fails

---
 durus/client_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index d1491c8..75e3b72 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -3,7 +3,7 @@ $URL$
 $Id$
 """
 from durus.error import DurusKeyError, ProtocolError
-from durus.error import ReadConflictError, ConflictError, WriteConflictError
+from durus.error import ReadConflictError, WriteConflictError
 from durus.serialize import split_oids
 from durus.storage import Storage
 from durus.storage_server import DEFAULT_PORT, DEFAULT_HOST
@@ -82,7 +82,8 @@ class ClientStorage (Storage):
             oid_list = split_oids(packed_oids)
             try:
                 handle_invalidations(oid_list)
-            except ConflictError:
+            except:
+                # The server waits for an answer, whatever happened here.
                 self.transaction_new_oids.reverse()
                 self.oid_pool.extend(self.transaction_new_oids)
                 assert len(self.oid_pool) == len(set(self.oid_pool))
-- 
2.43.0


From 38b2be0cdd3449a1ddb445d10dfd2107c7397b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 43/49] fix: a stopping server removes only its own socket file

---
 durus/storage_server.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index f6355a7..c567bf9 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -20,7 +20,7 @@ import sys
 import os
 if os.name != 'nt':
    from grp import getgrnam, getgrgid
-   from os import unlink, stat, chown, geteuid, getegid, umask, getpid
+   from os import unlink, stat, lstat, chown, geteuid, getegid, umask, getpid
    from pwd import getpwnam, getpwuid
 
 
@@ -147,6 +147,7 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
         self.owner = owner
         self.group = group
         self.umask = umask
+        self.bound = None # identifies the socket file, while it is ours
 
     def __str__(self):
         result = self.filename
@@ -193,6 +194,7 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                 s.bind(self.filename)
             else:
                 raise
+        self.bound = self._get_file_id()
         uid = geteuid()
         if self.owner is not None:
             if isinstance(self.owner, int):
@@ -208,10 +210,19 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
         if self.owner is not None or self.group is not None:
             chown(self.filename, uid, gid)
 
+    def _get_file_id(self):
+        try:
+            filestat = lstat(self.filename)
+        except OSError:
+            return None
+        return filestat.st_dev, filestat.st_ino
+
     def close(self, s):
-        s.close()
-        if exists(self.filename):
+        # Something else may be there by now.
+        if self.bound is not None and self.bound == self._get_file_id():
             unlink(self.filename)
+        self.bound = None
+        s.close()
 
 
 class InheritedSocket(SocketAddress):
-- 
2.43.0


From 444760c7c6c1cf06a888b74fa2a2c0c743079a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 44/49] fix: run the startup file of the interactive client on
 Python 3

---
 durus/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/__main__.py b/durus/__main__.py
index 509b16d..5004428 100644
--- a/durus/__main__.py
+++ b/durus/__main__.py
@@ -62,7 +62,9 @@ def interactive_client(file, address, cache_size, readonly, repair,
         vars(console_module), os.path.expanduser("~/.durushistory"))
     console = InteractiveConsole(vars(console_module))
     if startup:
-        console.runsource('execfile("%s")' % os.path.expanduser(startup))
+        startup = os.path.expanduser(startup)
+        console.runsource(
+            'exec(compile(open(%r).read(), %r, "exec"))' % (startup, startup))
     help = ('    connection -> the Connection\n'
             '    root       -> the root instance')
     console.interact('Durus %s\n%s' % (description, help))
-- 
2.43.0


From 73bbfd130900a44ea183d04b6fc387fe1b1abd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 45/49] fix: call_if_persistent passes on errors of the
 instance check

---
 durus/_persistent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index afb9b7a..0bf18ad 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -457,10 +457,14 @@ call_if_persistent(PyObject *x, PyObject *args)
 {
 	PyObject *f;     
 	PyObject *arg; 
+	int found;
 	if (!PyArg_UnpackTuple(args, "", 2, 2, &f, &arg)) {
 		return NULL;
 	}
-	if (PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type)) {
+	found = PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type);
+	if (found < 0)
+		return NULL;
+	if (found) {
 		return PyObject_CallFunction(f, "O", arg);
  	} else {
 		Py_INCREF(Py_None);
-- 
2.43.0


From b1fda74ed2d2798a7cfc4d0d0484833de56448b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:48 +0000
Subject: [PATCH 46/49] fix: objects that have each other as connections do not
 exhaust the stack

---
 durus/_persistent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 0bf18ad..ce8af0d 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -162,8 +162,12 @@ pb_note_access(PersistentBaseObject *self)
 	    !PyObject_TypeCheck(self->p_connection, &ConnectionBase_Type)) {
 		/* not a real connection: it can't be cast */
 		int same;
-		PyObject *serial = PyObject_GetAttrString(
+		PyObject *serial;
+		if (Py_EnterRecursiveCall(" while accessing an attribute"))
+			return 0; /* it is a persistent object, too */
+		serial = PyObject_GetAttrString(
 			self->p_connection, "transaction_serial");
+		Py_LeaveRecursiveCall();
 		if (serial == NULL)
 			return 0;
 		same = (self->p_serial == serial);
-- 
2.43.0


From 8fe4d372d63acea2607ce2865ef0dbffce234e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:49 +0000
Subject: [PATCH 47/49] fix: extract_class_name() returned a str when there is
 no name, which cannot be sorted with the others

---
 durus/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/serialize.py b/durus/serialize.py
index 4fdc4be..70742b7 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -52,7 +52,7 @@ def extract_class_name(record):
         oid, state, refs = unpack_record(record)
         return state.split(NEWLINE, 2)[1]
     except IndexError:
-        return "?"
+        return as_bytes("?")
 
 if sys.version < "3":
     def method(a, b):
-- 
2.43.0


From 6892c3d94f08dca7657fbd03ae8a11e231d95454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:48 +0000
Subject: [PATCH 48/49] fix: iteration over a shelf repeated names stored
 meanwhile

A name in the offset map that was stored again during an iteration, after
it had been generated, was generated a second time.
---
 durus/shelf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e7cbf45..fd2d86d 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -258,12 +258,14 @@ class Shelf (object):
             return item[1]
 
     def iterindex(self):
+        # Something may be stored while this is under way.
+        memory_index = self.memory_index.copy()
         for n, position in iteritems(self.offset_map):
             if position < self.offset_map.get_start():
                 name = int8_to_str(n)
-                if name not in self.memory_index:
+                if name not in memory_index:
                     yield name, position
-        for item in list(self.memory_index.items()):
+        for item in iteritems(memory_index):
             yield item
 
     def __iter__(self):
-- 
2.43.0


From 1e782de4a9387dd215b41ddecaf190d36839e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:48 +0000
Subject: [PATCH 49/49] fix: a commit of new objects ended an iteration over
 FileStorage2

gen_oid_record() without a start, and with it gen_every_instance(), raised
a RuntimeError when objects were added while it was under way.
---
 durus/file_storage2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 5c3404d..281a894 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -198,7 +198,8 @@ class FileStorage2(Storage):
 
     def gen_oid_record(self, start_oid=None, batch_size=100):
         if start_oid is None:
-            for oid, offset in iteritems(self.index):
+            # New objects may be committed while this is under way.
+            for oid in list(self.index):
                 yield oid, self.load(oid)
         else:
             for item in Storage.gen_oid_record(
-- 
2.43.0

