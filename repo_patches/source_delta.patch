From 32f910e3a921f0918260c3b1adcfe491204bbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 01/64] fix: SlidingLock let two processes hold the lock at
 once

---
 dustgoggles/codex/implements.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fa139ce..e3f39df 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -162,6 +162,7 @@ class SlidingLock:
         self.number = 0
         self.floor = None
         self.marker = None
+        self.held = None
         self.acquired = False
         self.spins = 0
         self.max_spins = None
@@ -205,6 +206,14 @@ class SlidingLock:
                 # # # # #
                 self.wait()
                 return False
+        # slot numbers only decide who goes first: a process can place its
+        # slot's lock after the owner of a higher slot has looked for it.
+        # exclusive creation of this block decides who actually holds the lock.
+        try:
+            self.held = SharedMemory(f"{self.name}_held", size=1, create=True)
+        except FileExistsError:
+            self.wait()
+            return False
         if getattr(self, "debug") is True:
             log(f"{here()},{self.number},taking precedence")
         return True
@@ -219,7 +228,6 @@ class SlidingLock:
         except FileExistsError:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},already have lock")
-            self.acquired = True
         while self.acquired is False:
             self.acquired = self._check_acquirement()
 
@@ -237,7 +245,7 @@ class SlidingLock:
             self.count.buf[:] = self.number.to_bytes(5, "little")
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},set floor to {self.number}")
-        for thing in ("lock", "marker"):
+        for thing in ("held", "lock", "marker"):
             block = getattr(self, thing)
             if block is None:
                 continue
@@ -249,7 +257,7 @@ class SlidingLock:
         self.acquired = False
 
     def close(self):
-        for obj in self.lock, self.count, self.marker:
+        for obj in self.held, self.lock, self.count, self.marker:
             try:
                 delete_block(obj.name)
             except (FileNotFoundError, TypeError, AttributeError):
-- 
2.43.0


From f84c8d5bff93e9de793e3c74e9e8f3c78670a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:42 +0000
Subject: [PATCH 02/64] fix: an interrupted wait for a SlidingLock left its
 slot locked for good

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index e3f39df..445c28d 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -173,7 +173,7 @@ class SlidingLock:
         try:
             self._renumber()
             self.acquire()
-        except Exception as ex:
+        except BaseException as ex:
             if getattr(self, "debug") is True:
                 log(f"{here()},{self.number},crashing out: {ex}")
             self.release()
-- 
2.43.0


From 8224d7e38cfeffbce617bd8c099da3b3f2f37213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 03/64] fix: open_block failed if another process was creating
 or unlinking the block

---
 dustgoggles/codex/memutilz.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index ada597d..9570101 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -8,15 +8,23 @@ def open_block(address, size, create=True, overwrite=False):
     `create` is True, create a new block if none exists. if `overwrite` is
     True, also unlink/overwrite any existing block at that address.
     """
-    try:
-        return SharedMemory(address, size=size, create=create)
-    except FileExistsError:
-        if overwrite is False:
-            return SharedMemory(address)
-        old_block = SharedMemory(address)
-        old_block.unlink()
-        old_block.close()
-        return SharedMemory(address, True, size)
+    while True:
+        try:
+            return SharedMemory(address, size=size, create=create)
+        except FileExistsError:
+            try:
+                old_block = SharedMemory(address)
+                if overwrite is False:
+                    return old_block
+                old_block.unlink()
+                old_block.close()
+            except FileNotFoundError:
+                # another process unlinked the block in the meantime
+                continue
+            except ValueError as error:
+                # another process is still in the middle of creating the block
+                if "cannot mmap an empty file" not in str(error):
+                    raise
 
 
 def fetch_block_bytes(address: str) -> bytes:
-- 
2.43.0


From 6e3f25a7995990d3bbe3a38f3f32bf27b991d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:43 +0000
Subject: [PATCH 04/64] fix: delete_block ignored missing_ok

---
 dustgoggles/codex/memutilz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index 9570101..9a0c722 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -57,7 +57,7 @@ def delete_block(address: str, missing_ok=False):
         block = SharedMemory(address)
         block.unlink()
         block.close()
-    except FileExistsError:
+    except FileNotFoundError:
         if missing_ok is False:
             raise
 
-- 
2.43.0


From 92671ed9f9249fd03c786efd387abee5d65a8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 05/64] fix: deactivating the shared memory tracker broke
 tracking of everything else

---
 dustgoggles/codex/memutilz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/memutilz.py b/dustgoggles/codex/memutilz.py
index 9a0c722..622a149 100644
--- a/dustgoggles/codex/memutilz.py
+++ b/dustgoggles/codex/memutilz.py
@@ -92,14 +92,14 @@ def deactivate_shared_memory_resource_tracker():
     def fix_register(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.register(self, name, rtype)
+        return resource_tracker._resource_tracker.register(name, rtype)
     resource_tracker.register = fix_register
 
     # noinspection PyUnresolvedReferences
     def fix_unregister(name, rtype):
         if rtype == "shared_memory":
             return
-        return resource_tracker._resource_tracker.unregister(self, name, rtype)
+        return resource_tracker._resource_tracker.unregister(name, rtype)
     resource_tracker.unregister = fix_unregister
 
     if "shared_memory" in resource_tracker._CLEANUP_FUNCS:
-- 
2.43.0


From bc7980dbdfe08172cb53e23010329bc506db5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:44 +0000
Subject: [PATCH 06/64] fix: deleting from a MetaTagIndex deadlocked on its own
 lock

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 445c28d..2412973 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -591,7 +591,7 @@ class MetaTagIndex(TagIndex):
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-            found_at = super().__delitem__(target)
+            found_at = super()._delitem(target)
             if (
                 (found_at == self.length - 1)
                 or not exists_block(self.val_address(self.length - 1))
-- 
2.43.0


From 170a5bdee6814562f684c3205436715014ee3066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 07/64] fix: closing a nonempty index leaked its entries into
 any later index of that name

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 2412973..4a714c0 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -492,6 +492,8 @@ class TagIndex(ShareableIndex):
             return self._delitem(target)
 
     def close(self):
+        for key in self.update():
+            self.remove(key)
         self.memory.unlink()
         self.memory.close()
         if exists_block(f"{self.name}_count"):
-- 
2.43.0


From 2b3215ecebf7db183b3b19fba56369fab812bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 08/64] fix: Notepad raised FileNotFoundError for missing keys
 and KeyError for None values

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 4a714c0..fda9de2 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -757,10 +757,10 @@ class Notepad(AbstractNotepad):
         )
 
     def __getitem__(self, key, fetch=True):
-        result = self.remember(self.address(key), fetch)
-        if result is None:
-            raise KeyError
-        return result
+        try:
+            return self.remember(self.address(key), fetch)
+        except FileNotFoundError:
+            raise KeyError(f"{key} not apparently assigned")
 
     def get(self, key, default=None, fetch=True):
         try:
-- 
2.43.0


From c938951d74afc61c74fcc406cc826d1fd1ed0c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:15 +0000
Subject: [PATCH 09/64] fix: a failed Notepad assignment left a valueless key
 in its index

---
 dustgoggles/codex/implements.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index fda9de2..f0c491e 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -772,8 +772,15 @@ class Notepad(AbstractNotepad):
         if isinstance(key, str) and key.startswith("index"):
             raise KeyError("'index' is a reserved key prefix")
         try:
+            was_set = exists_block(self.address(key))
             self.index.add(key, meta, exists_ok=exists_ok)
-            self.memorize(value, self.address(key), exists_ok)
+            try:
+                self.memorize(value, self.address(key), exists_ok)
+            except Exception:
+                # e.g. can't serialize value. don't index a key with no value.
+                if was_set is False:
+                    self.index.remove(key)
+                raise
             if self.debug is True:
                 log(f"{here()},,set key={key} to {value}")
         except FileExistsError:
-- 
2.43.0


From 50d3716c61f4772597e4114be23307dfe3d58c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 10/64] fix: GridPaper inverted exists_ok and could not grow an
 existing array

---
 dustgoggles/codex/codecs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index a508788..5d9271f 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,7 +133,12 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
-        block = open_block(address, array.size * array.itemsize, exists_ok)
+        if (exists_ok is False) and exists_block(address):
+            raise FileExistsError
+        size = array.size * array.itemsize
+        block = open_block(address, size)
+        if block.size < size:
+            block = open_block(address, size, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-- 
2.43.0


From da7ca634591772173daab9ad1e641aeda7d8c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:16 +0000
Subject: [PATCH 11/64] fix: GridPaper could not hold 0-dimensional or empty
 arrays

---
 dustgoggles/codex/codecs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 5d9271f..28d712d 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -135,14 +135,15 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         """
         if (exists_ok is False) and exists_block(address):
             raise FileExistsError
-        size = array.size * array.itemsize
+        # shared memory blocks can't be empty, even if the array is
+        size = max(array.size * array.itemsize, 1)
         block = open_block(address, size)
         if block.size < size:
             block = open_block(address, size, overwrite=True)
         shared_array = np.ndarray(
             array.shape, dtype=array.dtype, buffer=block.buf
         )
-        shared_array[:] = array[:]
+        shared_array[...] = array
         metadata = {
             "name": block.name,
             "dtype": array.dtype.str,
-- 
2.43.0


From 3390b1b592892b284687aa49f35987cb2c81f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:32 +0000
Subject: [PATCH 12/64] fix: GridPaper could not return an unfetched block

---
 dustgoggles/codex/implements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f0c491e..f0fc65c 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -866,6 +866,8 @@ class GridPaper(AbstractNotepad):
 
     def __getitem__(self, key, fetch=True, copy=True):
         try:
+            if fetch is False:
+                return self.remember(self.index[key], fetch)
             result, block = self.remember(self.index[key], fetch, copy)
             if copy is False:
                 self._open_blocks.append(block)
-- 
2.43.0


From 5f3c7316a028a72dcd27e1493a18f95dc7d0591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 13/64] fix: GridPaper.clear always raised AttributeError

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f0fc65c..1571a1e 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -940,7 +940,7 @@ class GridPaper(AbstractNotepad):
         atexit.unregister(self.close)
 
     def clear(self):
-        for key in self.update_index().keys():
+        for key in self.update_index():
             del self[key]
 
     def __str__(self):
-- 
2.43.0


From 3b020a6c8531965c2d8bddfc655de992189c769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 14/64] fix: Sticky could not replace a note with one of a
 different size

---
 dustgoggles/codex/implements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 1571a1e..991c81b 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -1006,7 +1006,7 @@ class Sticky:
     def stick(self, obj):
         encoded = self.encode(obj)
         size = len(encoded)
-        block = open_block(self.address, size)
+        block = open_block(self.address, size, overwrite=True)
         block.buf[:] = encoded
         self._cached_value = obj
 
-- 
2.43.0


From 283bb85e2ed0416152d862a86e2e1b59e6fba80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:34 +0000
Subject: [PATCH 15/64] fix: deleting a reserved key destroyed part of the
 index

---
 dustgoggles/codex/implements.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 991c81b..2cb6dca 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -793,8 +793,8 @@ class Notepad(AbstractNotepad):
         return self.__setitem__(key, value, meta, exists_ok)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
@@ -919,8 +919,8 @@ class GridPaper(AbstractNotepad):
         self[key].tofile(fn)
 
     def __delitem__(self, key):
-        if key in (["index", "index_lock"]):
-            raise KeyError("'index' and 'index_lock' are reserved key names")
+        if isinstance(key, str) and key.startswith("index"):
+            raise KeyError("'index' is a reserved key prefix")
         try:
             delete_block(self.address(key))
             self.index.remove(key)
-- 
2.43.0


From 3e72bb387c44db1827b3e4a0da8a686aab6540d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 16/64] fix: GridPaper shared the raw pointers of object arrays

---
 dustgoggles/codex/codecs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 28d712d..8c17057 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -133,6 +133,8 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         fill it with the contents of `array`. return a dict containing
         metadata necessary to fetch and reconstruct the array.
         """
+        if array.dtype.hasobject:
+            raise TypeError("arrays of Python objects can't be shared.")
         if (exists_ok is False) and exists_block(address):
             raise FileExistsError
         # shared memory blocks can't be empty, even if the array is
-- 
2.43.0


From a8dd69056c3ad5c3ea0a61204e525ad2987cf98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 17/64] fix: a failed Tracker.dump corrupted the log file

---
 dustgoggles/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/tracker.py b/dustgoggles/tracker.py
index 4c4074b..e101c8f 100644
--- a/dustgoggles/tracker.py
+++ b/dustgoggles/tracker.py
@@ -82,6 +82,8 @@ class Tracker(TrivialTracker):
         self.log["write_timestamp"] = dt.datetime.now().isoformat()
         key_order = sorted(self.log.keys(), key=lambda n: "history" in n)
         self.log = {k: self.log[k] for k in key_order}
+        # serialize before touching the file so that a failure can't corrupt it
+        entry = json.dumps(self.log, indent=2).encode('utf-8')
         mode = "rb+" if self.outpath.exists() else "wb"
         with self.outpath.open(mode) as stream:
             if mode == "rb+":
@@ -89,7 +91,7 @@ class Tracker(TrivialTracker):
                 stream.write(b",\n")
             else:
                 stream.write(b"[")
-            stream.write(json.dumps(self.log, indent=2).encode('utf-8'))
+            stream.write(entry)
             stream.write(b"]")
 
     _paused = False
-- 
2.43.0


From 0655b99155f533ef5370239275bb369ca710e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:54 +0000
Subject: [PATCH 18/64] fix: unloading a never-loaded Dynamic raised
 AttributeError

---
 dustgoggles/dynamic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index 9904e55..bcc321d 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -134,7 +134,6 @@ class Dynamic:
         self.__name__ = self.func.__name__
 
     def unload(self):
-        del self.code, self.func, self.errors
         self.call_fail, self.compile_fail = False, False
         self.code, self.func, self.errors = None, None, []
         self.__name__ = self.__class__.__name__
-- 
2.43.0


From 7f280a2c7c06b15c5db005179b5a9943cc41f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 19/64] fix: Dynamic.from_function discarded the function's
 source and globals

---
 dustgoggles/dynamic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustgoggles/dynamic.py b/dustgoggles/dynamic.py
index bcc321d..17a204f 100644
--- a/dustgoggles/dynamic.py
+++ b/dustgoggles/dynamic.py
@@ -184,7 +184,13 @@ class Dynamic:
         dynamic.__signature__ = signature(dynamic.func)
         dynamic.__name__ = dynamic.func.__name__
         dynamic.globals_ = func.__globals__
+        source = dynamic.source
         dynamic.__init__(*init_args, **init_kwargs)
+        # don't let unspecified __init__ arguments erase these
+        if dynamic.source is None:
+            dynamic.source = source
+        if dynamic.globals_ is None:
+            dynamic.globals_ = func.__globals__
         return dynamic
 
     __signature__ = Signature()
-- 
2.43.0


From 01afcf0f0791a576395364ed8956c2227892a499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 20/64] fix: a MaybePool could not be used unchunked after
 being used chunked

---
 dustgoggles/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 60497df..8596e15 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -377,6 +377,7 @@ class MaybePool:
             rec['args'] = rec.get('args', ())
             rec['kwargs'] = rec.get('kwargs', {})
         if (as_chunks is False) or (self.pool is None):
+            self.chunked = False
             self.results = {
                 rec['key']: self.apply(func, rec['args'], rec['kwargs'])
                 for rec in argrecs
-- 
2.43.0


From 9ebc86a1c684e63c5b91c1a8eb6274ac808b6417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 21/64] fix: rmerge ignored mtypes below the top level

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 8596e15..d7f5ffb 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -306,7 +306,7 @@ def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
         if kv[0] in only_in_one:
             output[kv[0]] = kv[1]
         elif all(map(lambda m: isinstance(m, mtypes), (map1[kv[0]], map2[kv[0]]))):
-            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]])
+            output[kv[0]] = rmerge(map1[kv[0]], map2[kv[0]], mtypes)
         else:
             output[kv[0]] = map2[kv[0]]
     return output
-- 
2.43.0


From 79f8f17996c4198cbf9a16dad5292c992638bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 22/64] fix: get_from raised TypeError for missing non-string
 keys

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index d7f5ffb..72bbee8 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -154,7 +154,7 @@ def get_from(collection, keys, default=None):
     for key in keys:
         try:
             level = getitemattr(level, key)
-        except AttributeError:
+        except (AttributeError, TypeError):
             return default
     return level
 
-- 
2.43.0


From 1503760ce4b3c561a4f110f841c04d3cdf631c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 23/64] fix: make_scraper raised TypeError for text that looks
 like an unhashable literal

---
 dustgoggles/scrape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 20f4684..6806827 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,7 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError):
+        except (ValueError, SyntaxError, TypeError):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From a3df83b719bf89013614d9770eacc71752d596ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 24/64] fix: check_and_drop_duplicate_columns dropped unequal
 columns

---
 dustgoggles/pivot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 382d9cd..6b2ee9a 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -50,9 +50,11 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     if len(extra_columns) == 0:
         return dataframe
     for column in extra_columns:
-        test_equality = dataframe.loc[:, column] == dataframe.loc[:, column]
-        if not test_equality.all(axis=None):
-            raise ValueError
+        duplicates = dataframe.loc[:, column]
+        for ix in range(1, duplicates.shape[1]):
+            first, other = duplicates.iloc[:, 0], duplicates.iloc[:, ix]
+            if not ((first == other) | (first.isna() & other.isna())).all():
+                raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
-- 
2.43.0


From 13b735910faa51a6e00e4411a328b08a4c05b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 25/64] fix: downcast returned a bare array for zeros mixed
 with nonfinite values

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 6b2ee9a..e070d7b 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -211,7 +211,7 @@ def downcast(
     if arr_nzero.size == 0 and not has_nonfinite:
         return _maybeseries(arr, np.uint8, library, name, 0, 0)
     elif arr_nzero.size == 0 and use_nillable_int is False:
-        return arr.astype(np.float16)
+        return _maybeseries(arr, np.dtype("float16"), library, name, 0, 0)
     elif arr_nzero.size == 0:
         return _maybeseries(arr, pd.UInt8Dtype(), library, name, 0, 0)
     amin, amax = arr_finite.min(), arr_finite.max()
-- 
2.43.0


From 0758f9224ea3d797416c25d9e8cd49f71eb6452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 26/64] fix: downcast_df discarded the index of numeric columns

---
 dustgoggles/pivot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index e070d7b..c616990 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -260,9 +260,9 @@ def downcast_df(
         if not is_numeric_dtype(col.dtype):
             cast_series.append(col if copy_all is False else col.copy())
             continue
-        cast_series.append(
-            downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
-        )
+        recast = downcast(col, atol, rtol, 'pandas', use_nillable_int)['recast']
+        recast.index = df.index
+        cast_series.append(recast)
     if reassemble is True:
         return pd.concat(cast_series, axis=1)
     return cast_series
-- 
2.43.0


From 860905379fe4e3b101ea22ce169850a22a20be1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 27/64] fix: extract_constants returned wrong dicts for
 how='columns' or leading NaNs

---
 dustgoggles/pivot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index c616990..44d7283 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -105,7 +105,11 @@ def extract_constants(
         constants = df.loc[constant_indices]
         variables = df.loc[~constant_indices]
     if to_dict:
-        constants = constants.iloc[0].to_dict()
+        # bfill in case the first value is one that dropna told us to ignore
+        if how == "rows":
+            constants = constants.bfill().iloc[0].to_dict()
+        else:
+            constants = constants.bfill(axis=1).iloc[:, 0].to_dict()
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From 5467c26b847072dac6c92f1c8a53bbeba2685012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 28/64] fix: sort_chunked did not sort in descending order
 across chunks

---
 dustgoggles/mosaic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 8fc6301..e4cc73d 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -153,6 +153,8 @@ def sort_chunked(
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
     windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    if direction == "descending":
+        windows.reverse()
     try:
         for window in windows:
             window_table = read_between(
-- 
2.43.0


From 0b785b050b25544817cba88aa8bf1bfa5a2e37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 29/64] fix: sort_chunked dropped the largest values of large
 floats

---
 dustgoggles/mosaic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index e4cc73d..373ae68 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -152,7 +152,9 @@ def sort_chunked(
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
     windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    windows[-1] = (windows[-1][0], windows[-1][1] + 1)
+    # the last window must include max_value (and max_value + 1 may equal
+    # max_value if it's a large float)
+    windows[-1] = (windows[-1][0], np.inf)
     if direction == "descending":
         windows.reverse()
     try:
-- 
2.43.0


From f12996abb3dc4d68b1b1a0c423588db5bdc85e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 30/64] fix: sort_chunked passed its verbose argument to
 read_between as columns

---
 dustgoggles/mosaic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 373ae68..6235bbe 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -160,7 +160,11 @@ def sort_chunked(
     try:
         for window in windows:
             window_table = read_between(
-                sort_reader, sort_column, window, relevant_records, verbose
+                sort_reader,
+                sort_column,
+                window,
+                relevant_records,
+                verbose=verbose
             )
             if window_table is None:
                 continue
-- 
2.43.0


From abf6c05c64fa88afaa2e811766cd527da9f5f2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 31/64] fix: sort_chunked dropped rows with null sort values

---
 dustgoggles/mosaic.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 6235bbe..7e285ad 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -141,8 +141,10 @@ def sort_chunked(
         open_kwargs["use_dictionary"] = use_dictionary
     sort_reader = parquet.ParquetFile(input_file)
     meta_records = parquet_metadata_records(input_file)
+    # row groups that contain only nulls have no min / max
     relevant_records = [
-        rec for rec in meta_records if rec["path_in_schema"] == sort_column
+        rec for rec in meta_records
+        if rec["path_in_schema"] == sort_column and rec["max"] is not None
     ]
     if schema is None:
         schema = sort_reader.read_row_group(0).schema
@@ -177,5 +179,16 @@ def sort_chunked(
                 window_table = inline_processor(window_table)
             sort_writer.write_table(window_table, **write_kwargs)
             del window_table
+        # nulls are not in any window. put them at the end, like sort_by does
+        for group_ix in range(sort_reader.num_row_groups):
+            group = sort_reader.read_row_group(group_ix)
+            nulls = group.filter(
+                pac.is_null(group[sort_column], nan_is_null=True)
+            )
+            if len(nulls) == 0:
+                continue
+            if inline_processor is not None:
+                nulls = inline_processor(nulls)
+            sort_writer.write_table(nulls, **write_kwargs)
     finally:
         sort_writer.close()
-- 
2.43.0


From f108953eace6c1aac5b2acbc76ba417a1a3523c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 32/64] fix: replacing a step of a tracked Composition tracked
 both functions

---
 dustgoggles/composition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 1bea027..3950c92 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -77,6 +77,9 @@ class Composition:
     def _add_track_send(self, step_name: Hashable):
         if self.tracker is None:
             return
+        # if this replaces a step, don't keep tracking the replaced function
+        sends = self.sends.get(step_name, [])
+        sends[:] = [s for s in sends if not hasattr(s[0], "_tracked_step")]
         self.add_send(
             step_name,
             pipe=_track_factory(self.tracker, step_name, self.steps[step_name])
@@ -293,4 +296,5 @@ def _track_factory(tracker, step, func):
     def track(_):
         return tracker.track(func, step=step)
 
+    track._tracked_step = step
     return track
-- 
2.43.0


From 18efff59a9e8ec4f523b0f0735459feb387ddb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 33/64] fix: GridPaper returned structured arrays as raw bytes

---
 dustgoggles/codex/codecs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 8c17057..7a87e4c 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -124,6 +124,8 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
      / sparsifying / etc. arrays.
     """
     import numpy as np
+    # unlike dtype.str, this also describes structured dtypes
+    from numpy.lib.format import descr_to_dtype, dtype_to_descr
 
     def memorize_array(
         array: np.ndarray, address: str, exists_ok: bool, keep_open: bool
@@ -148,7 +150,7 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         shared_array[...] = array
         metadata = {
             "name": block.name,
-            "dtype": array.dtype.str,
+            "dtype": dtype_to_descr(array.dtype),
             "shape": array.shape,
             "size": array.size * array.itemsize
         }
@@ -164,7 +166,9 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         if fetch is False:
             return block
         array = np.ndarray(
-            metadata['shape'], dtype=metadata['dtype'], buffer=block.buf
+            metadata['shape'],
+            dtype=descr_to_dtype(metadata['dtype']),
+            buffer=block.buf
         )
         if copy is True:
             return array.copy(), None
-- 
2.43.0


From b86110bbe58ff05b6aa99052be4ed5721de0f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 34/64] fix: a failed MetaTagIndex.add left the key in the
 index

---
 dustgoggles/codex/implements.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index 2cb6dca..f4347ac 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -579,9 +579,16 @@ class MetaTagIndex(TagIndex):
 
     def add(self, key, value=None, exists_ok=True):
         with self.lock_class(self.name, self.debug):
+            was_added = self.check(key) is not None
             writehead = super()._add(key, exists_ok)
             if value is not None:
-                self.memorize(value, self.val_address(writehead))
+                try:
+                    self.memorize(value, self.val_address(writehead))
+                except Exception:
+                    # e.g. can't serialize value. don't add a key without it.
+                    if was_added is False:
+                        self._delitem(key)
+                    raise
             return writehead
 
     def __getitem__(self, key):
-- 
2.43.0


From 14ab2bb00f4090fb772aa9496861f5014bb3f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 35/64] fix: reading a MetaTagIndex while another key is
 removed found nothing or the wrong value

---
 dustgoggles/codex/implements.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dustgoggles/codex/implements.py b/dustgoggles/codex/implements.py
index f4347ac..6a4d08a 100644
--- a/dustgoggles/codex/implements.py
+++ b/dustgoggles/codex/implements.py
@@ -592,11 +592,13 @@ class MetaTagIndex(TagIndex):
             return writehead
 
     def __getitem__(self, key):
-        found_at = self.check(key)
-        if found_at is None:
-            raise KeyError(f"{key} not found in index.")
-        valblock = SharedMemory(self.val_address(found_at))
-        return valblock.buf.tobytes()
+        # removing another key can move this one and its value
+        with self.lock_class(self.name, self.debug):
+            found_at = self.check(key)
+            if found_at is None:
+                raise KeyError(f"{key} not found in index.")
+            valblock = SharedMemory(self.val_address(found_at))
+            return valblock.buf.tobytes()
 
     def __delitem__(self, target):
         with self.lock_class(self.name, self.debug):
-- 
2.43.0


From 2e24cabaedff505da366ec48d6426f44bc8bf197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 36/64] fix: reindexing a tracked Composition stopped tracking
 or tracked the wrong steps

---
 dustgoggles/composition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/composition.py b/dustgoggles/composition.py
index 3950c92..201fced 100644
--- a/dustgoggles/composition.py
+++ b/dustgoggles/composition.py
@@ -87,6 +87,8 @@ class Composition:
 
     def reindex(self):
         self.steps = reindex_mapping(self.steps)
+        # tracking goes by step name
+        self._add_track_sends()
 
     @property
     def index(self):
-- 
2.43.0


From 46c1893fce0ab3eb10bf398fc6765d3f58dc3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 37/64] fix: digging for items by a constant always raised
 TypeError

---
 dustgoggles/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 72bbee8..91fa55a 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -167,7 +167,7 @@ def constant_to_dig_predicate(putative_predicate, match="key", default=eq):
     elif match == "value":
         return valonly(partial(default, putative_predicate))
     elif match == "item":
-        return partial(default, putative_predicate)
+        return lambda key, value: default(putative_predicate, (key, value))
 
 
 def keyonly(func):
-- 
2.43.0


From 6805f125c5ebdfd3b77cb398202712c1e58b5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 38/64] fix: disjoint returned nothing for iterators

---
 dustgoggles/func.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/func.py b/dustgoggles/func.py
index 7aed0f7..6dcad2e 100644
--- a/dustgoggles/func.py
+++ b/dustgoggles/func.py
@@ -72,6 +72,7 @@ def intersection(*iterables: Iterable) -> set:
 
 
 def disjoint(*sets: Iterable) -> list[list]:
+    sets = tuple(map(tuple, sets))
     shared = intersection(*sets)
     return [
         [file for file in this_set if file not in shared] for this_set in sets
-- 
2.43.0


From 2e30ca2363dbbc6d88b27adb3cc60c78b2daf19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 39/64] fix: an exception in one record of a chunk hid the
 results of the whole chunk

---
 dustgoggles/structures.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index 91fa55a..f3c617e 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -358,7 +358,7 @@ class MaybeResult:
 
 def _chunkwrap(func, argrecs):
     return {
-        rec['key']: func(*rec['args'], **rec['kwargs'])
+        rec['key']: MaybeResult(func, rec['args'], rec['kwargs'])
         for rec in argrecs
     }
 
@@ -408,13 +408,19 @@ class MaybePool:
         return self.pool.join()
 
     def get(self, raise_exc=False):
-        output = {}
-        for k, v in self.results.items():
+        output, results = {}, self.results
+        if self.chunked is True:
+            # an exception in one record shouldn't hide the rest of its chunk
+            results = {}
+            for k, chunk in self.results.items():
+                try:
+                    results |= chunk.get()
+                except Exception:
+                    # e.g. can't serialize its results
+                    results[k] = chunk
+        for k, v in results.items():
             try:
-                if self.chunked is True:
-                    output |= v.get()
-                else:
-                    output[k] = v.get()
+                output[k] = v.get()
             except KeyboardInterrupt:
                 raise
             except Exception as ex:
-- 
2.43.0


From 41600d3b7027f6916baa5e08c31d4b6e6a67c16f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 40/64] fix: extract_constants treated all lines with the same
 label alike

---
 dustgoggles/pivot.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 44d7283..5330d38 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -77,27 +77,25 @@ def extract_constants(
     """
     if how not in ("rows", "columns"):
         raise ValueError(f"unknown how {how}")
-    if how == "rows":
-        constant_indices = pd.Series(False, df.columns)
-    else:
-        constant_indices = pd.Series(False, df.index)
+    # selected by position: labels may be duplicated
+    constant_indices = np.full(df.shape[1 if how == "rows" else 0], False)
     try:
         method = "iterrows" if how == "columns" else "items"
-        for ix, series in getattr(df, method)():
+        for ix, (_, series) in enumerate(getattr(df, method)()):
             series = series if dropna is False else series.dropna()
             if (len(series) == 0) or (series == series.iloc[0]).all():
-                constant_indices.loc[ix] = True
+                constant_indices[ix] = True
     except TypeError:
         # TODO: still necessary?
         if how == "columns":
             raise NotImplementedError("nested fields not supported columnwise")
-        for c in df.columns:
-            if isinstance(df[c].iloc[0], list):
-                test_series = df[c].map(tuple)
+        for ix, (_, series) in enumerate(df.items()):
+            if isinstance(series.iloc[0], list):
+                test_series = series.map(tuple)
             else:
-                test_series = df[c]
+                test_series = series
             if (test_series.iloc[0] == test_series).all():
-                constant_indices.loc[c] = True
+                constant_indices[ix] = True
     if how == "rows":
         constants = df.loc[:, constant_indices]
         variables = df.loc[:, ~constant_indices]
-- 
2.43.0


From 88c7e2d778decaa4a63d3bf3d897d477a4ec4b7e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 41/64] fix: extract_constants failed on or overlooked constant
 listlikes

---
 dustgoggles/pivot.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 5330d38..7f14c22 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -58,6 +58,14 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
 
+def _equals(series: pd.Series, value: Any):
+    """which elements of a series, also of listlikes, equal value?"""
+    if isinstance(value, (list, tuple)):
+        # pandas would compare the elements of value with those of series
+        return series.map(lambda element: element == value).astype(bool)
+    return series == value
+
+
 def extract_constants(
     df: pd.DataFrame,
     to_dict=True,
@@ -83,18 +91,14 @@ def extract_constants(
         method = "iterrows" if how == "columns" else "items"
         for ix, (_, series) in enumerate(getattr(df, method)()):
             series = series if dropna is False else series.dropna()
-            if (len(series) == 0) or (series == series.iloc[0]).all():
+            if (len(series) == 0) or _equals(series, series.iloc[0]).all():
                 constant_indices[ix] = True
     except TypeError:
         # TODO: still necessary?
         if how == "columns":
             raise NotImplementedError("nested fields not supported columnwise")
         for ix, (_, series) in enumerate(df.items()):
-            if isinstance(series.iloc[0], list):
-                test_series = series.map(tuple)
-            else:
-                test_series = series
-            if (test_series.iloc[0] == test_series).all():
+            if _equals(series, series.iloc[0]).all():
                 constant_indices[ix] = True
     if how == "rows":
         constants = df.loc[:, constant_indices]
-- 
2.43.0


From 384ec03a3f19a512b971c8c1bd7e773e61cda4be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 42/64] fix: extract_constants rounded large integers next to
 floats

---
 dustgoggles/pivot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 7f14c22..4041132 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -88,8 +88,9 @@ def extract_constants(
     # selected by position: labels may be duplicated
     constant_indices = np.full(df.shape[1 if how == "rows" else 0], False)
     try:
-        method = "iterrows" if how == "columns" else "items"
-        for ix, (_, series) in enumerate(getattr(df, method)()):
+        # as objects, because a row of ints and floats would become all floats
+        lines = df.items() if how == "rows" else df.astype(object).iterrows()
+        for ix, (_, series) in enumerate(lines):
             series = series if dropna is False else series.dropna()
             if (len(series) == 0) or _equals(series, series.iloc[0]).all():
                 constant_indices[ix] = True
@@ -109,9 +110,10 @@ def extract_constants(
     if to_dict:
         # bfill in case the first value is one that dropna told us to ignore
         if how == "rows":
-            constants = constants.bfill().iloc[0].to_dict()
+            constants = constants.bfill().astype(object).iloc[0].to_dict()
         else:
-            constants = constants.bfill(axis=1).iloc[:, 0].to_dict()
+            constants = constants.astype(object).bfill(axis=1)
+            constants = constants.iloc[:, 0].to_dict()
     if drop_constants:
         return constants, variables
     return constants, df
-- 
2.43.0


From b98149041dd5f6857b376ec17d4e2b797ecadec4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 43/64] fix: typed_columns returned columns of other types with
 the same label

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 4041132..8a33dca 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -147,7 +147,7 @@ def typed_columns(df, typenames):
         return pd.DataFrame(index=df.index)
     names = df.dtypes.apply(attrgetter("name")).str.lower()
     type_pattern = f"u?({'|'.join(typenames)})".lower()
-    return df[df.dtypes.loc[names.str.match(type_pattern)].index]
+    return df.loc[:, names.str.match(type_pattern).to_numpy(dtype=bool)]
 
 
 def numeric_columns(df):
-- 
2.43.0


From 5b378dfdd37906a3407a885f4958a1d98af8acf2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 44/64] fix: squeeze lost labels with only null values or
 failed on equal names

---
 dustgoggles/pivot.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 8a33dca..dc957dc 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -355,14 +355,5 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-    df = pd.DataFrame(series).reset_index()
-    ixname = "index" if series.index.name is None else series.index.name
-    sname = 0 if series.name is None else series.name
-    squeezed = df.pivot_table(
-        values=series.name,
-        index=ixname,
-        aggfunc=aggfunc,
-    )[sname]
-    squeezed.index.name = series.index.name
-    squeezed.name = series.name
-    return squeezed
+    levels = list(range(series.index.nlevels))
+    return series.groupby(level=levels, dropna=False).agg(aggfunc)
-- 
2.43.0


From 87356fbc99a9f17e5464086d76fb4fe88b38406a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 45/64] fix: unpack_column modified its argument and failed on
 duplicate labels

---
 dustgoggles/pivot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index dc957dc..0a13d3c 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -327,9 +327,10 @@ def unpack(series: pd.Series):
 
 def unpack_column(df: pd.DataFrame, colname):
     """unpack a nested listlike column by name"""
-    unpacked = unpack(df[colname])
-    df.loc[unpacked.index, unpacked.columns] = unpacked
-    return df.drop(columns=colname)
+    # by position, because index labels may be duplicated
+    unpacked = unpack(df[colname].reset_index(drop=True))
+    unpacked = unpacked.reindex(range(len(df))).set_axis(df.index)
+    return pd.concat([df.drop(columns=colname), unpacked], axis=1)
 
 
 def unique_to_records(df, cols):
-- 
2.43.0


From ed6ef7c4bca7609817436defbfd8787aa2634a4d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 46/64] fix: unique_to_records dropped records with null values

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 0a13d3c..ccb9ec0 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -334,7 +334,7 @@ def unpack_column(df: pd.DataFrame, colname):
 
 
 def unique_to_records(df, cols):
-    unique_tuples = df[cols].value_counts().index.to_list()
+    unique_tuples = df[cols].value_counts(dropna=False).index.to_list()
     records = [
         {col: value for col, value in zip(cols, values)}
         for values in unique_tuples
-- 
2.43.0


From b57e0342d7226c1f1cff03f69e82947ad4faa87e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 47/64] fix: dupe_df_block changed the types of a table's
 columns

---
 dustgoggles/pivot.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index ccb9ec0..377ca5d 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -33,10 +33,8 @@ def dupe_df_block(dataframe: pd.DataFrame, repeats: int):
     """
     create a new dataframe by duplicating "dataframe" "repeats" times
     """
-    return pd.DataFrame(
-        np.repeat(dataframe.values, repeats, axis=0),
-        columns=dataframe.columns,
-    )
+    rows = np.repeat(np.arange(len(dataframe)), repeats)
+    return dataframe.iloc[rows].reset_index(drop=True)
 
 
 # TODO, maybe: allow this to work with columns that have collections
-- 
2.43.0


From ec0cf165873c5a629cec4b7e2cb1e32b5095f672 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:37:29 +0000
Subject: [PATCH 48/64] fix: extract_constants overlooked pd.NA when asked to
 count nulls

---
 dustgoggles/pivot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 377ca5d..c4eff67 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -61,7 +61,8 @@ def _equals(series: pd.Series, value: Any):
     if isinstance(value, (list, tuple)):
         # pandas would compare the elements of value with those of series
         return series.map(lambda element: element == value).astype(bool)
-    return series == value
+    # comparisons to pd.NA are neither true nor false
+    return (series == value).fillna(False)
 
 
 def extract_constants(
-- 
2.43.0


From 7957005d49292bd46ab0ff7a5816aa0eae1007c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 49/64] fix: check_and_drop_duplicate_columns accepted pd.NA as
 equal to anything

---
 dustgoggles/pivot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index c4eff67..b00a749 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -51,7 +51,9 @@ def check_and_drop_duplicate_columns(dataframe: pd.DataFrame):
         duplicates = dataframe.loc[:, column]
         for ix in range(1, duplicates.shape[1]):
             first, other = duplicates.iloc[:, 0], duplicates.iloc[:, ix]
-            if not ((first == other) | (first.isna() & other.isna())).all():
+            # comparisons to pd.NA are neither true nor false
+            equal = (first == other).fillna(False)
+            if not (equal | (first.isna() & other.isna())).all():
                 raise ValueError
     return dataframe.loc[:, ~dataframe.columns.duplicated()]
 
-- 
2.43.0


From 1e66651f700e3fda94473f70b540f629674e13ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 50/64] fix: squeeze failed on series of strings and other
 extension types

---
 dustgoggles/pivot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b00a749..02276db 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -12,7 +12,7 @@ from typing import Any, Optional, Union, Sequence, Literal
 from cytoolz import valfilter
 import numpy as np
 import pandas as pd
-from pandas.core.dtypes.common import is_numeric_dtype
+from pandas.core.dtypes.common import is_bool_dtype, is_numeric_dtype
 
 from dustgoggles.func import gmap
 
@@ -353,7 +353,7 @@ def squeeze(series: pd.Series, aggfunc: Optional[str] = None) -> pd.Series:
     is not.
     """
     if aggfunc is None:
-        if series.dtype.char == "?":
+        if is_bool_dtype(series.dtype):
             aggfunc = "any"
         else:
             return series.loc[~series.index.duplicated()]
-- 
2.43.0


From 94a766ff7c36da76e1e95f37c0dc3602e9f51f66 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 51/64] fix: unique_to_records and junction invented
 combinations of categories

---
 dustgoggles/pivot.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 02276db..54af078 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -300,9 +300,16 @@ def downcast_df(
     # return df
 
 
+def _combinations(df, cols, dropna=True):
+    """distinct combinations of values in some columns of df"""
+    # as objects, because unobserved combinations of categories count as well
+    counts = df[cols].astype(object).value_counts(dropna=dropna)
+    return counts.index.to_list()
+
+
 def junction(df1, df2, columns, set_method="difference"):
-    keys1 = df1[list(columns)].value_counts().index.to_list()
-    keys2 = df2[list(columns)].value_counts().index.to_list()
+    keys1 = _combinations(df1, list(columns))
+    keys2 = _combinations(df2, list(columns))
     return getattr(set(keys1), set_method)(set(keys2))
 
 
@@ -335,7 +342,7 @@ def unpack_column(df: pd.DataFrame, colname):
 
 
 def unique_to_records(df, cols):
-    unique_tuples = df[cols].value_counts(dropna=False).index.to_list()
+    unique_tuples = _combinations(df, cols, dropna=False)
     records = [
         {col: value for col, value in zip(cols, values)}
         for values in unique_tuples
-- 
2.43.0


From 7b866043009a0e9812d34bd2969e91762c0a7da7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 52/64] fix: make_scraper failed on text too complex to be
 parsed

---
 dustgoggles/scrape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/scrape.py b/dustgoggles/scrape.py
index 6806827..eee8721 100644
--- a/dustgoggles/scrape.py
+++ b/dustgoggles/scrape.py
@@ -24,7 +24,9 @@ def make_scraper(label_text: str) -> Callable:
             return None
         try:
             return literal_eval(result.group(1))
-        except (ValueError, SyntaxError, TypeError):
+        except (
+            ValueError, SyntaxError, TypeError, MemoryError, RecursionError
+        ):
             return result.group(1)
 
     return scrape
-- 
2.43.0


From bdb08821a62dda9779542264f577f1bac117e4f6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 53/64] fix: downcast failed on floats just beyond the bounds
 of an integer type

---
 dustgoggles/pivot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index 54af078..b915e39 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -160,8 +160,13 @@ def check_in_dtype_bounds(
     amin: Union[int, float], amax: Union[int, float], dt: np.dtype
 ):
     info = np.iinfo(dt) if dt.kind in 'iu' else np.finfo(dt)
+    # compare as python numbers: numpy would round the bounds to amin's type
+    lower, upper = info.min, info.max
+    if dt.kind == 'f':
+        lower, upper = float(lower), float(upper)
+    amin, amax = (n.item() if hasattr(n, "item") else n for n in (amin, amax))
     try:
-        return bool(amin >= info.min and amax <= info.max)
+        return bool(amin >= lower and amax <= upper)
     except TypeError:  # just too big!
         return False
 
-- 
2.43.0


From 5dee839695e58aadc1000815425eff67d002ef9c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 54/64] fix: sort_chunked dropped rows or failed with infinite
 or huge values

---
 dustgoggles/mosaic.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 7e285ad..9bcd391 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -97,12 +97,17 @@ def read_between(
 ):
     """
     managed read-between bounds operation, more efficient in some cases
-    than parquet.read_table with specified filters
+    than parquet.read_table with specified filters. None as a bound means that
+    there is no such bound.
     """
+    lower, upper = bounds
     bound_records = []
     for rec in meta_records:
-        if not ((rec["min"] > bounds[1]) or (rec["max"] < bounds[0])):
-            bound_records.append(rec)
+        if (upper is not None) and (rec["min"] > upper):
+            continue
+        if (lower is not None) and (rec["max"] < lower):
+            continue
+        bound_records.append(rec)
     if verbose is True:
         print(len(bound_records), len(meta_records))
     if len(bound_records) == 0:
@@ -111,11 +116,15 @@ def read_between(
 
     for rec in bound_records:
         group = parquet_file.read_row_group(rec["row_group"])
-        less_than = pac.filter(group, pac.less(group[field], bounds[1]))
-        more_than = pac.filter(
-            less_than, pac.greater_equal(less_than[field], bounds[0])
+        # neither nulls nor NaNs are between any bounds
+        group = group.filter(
+            pac.invert(pac.is_null(group[field], nan_is_null=True))
         )
-        bound_groups.append(more_than)
+        if upper is not None:
+            group = group.filter(pac.less(group[field], upper))
+        if lower is not None:
+            group = group.filter(pac.greater_equal(group[field], lower))
+        bound_groups.append(group)
     return pa.concat_tables(bound_groups)
 
 
@@ -153,10 +162,13 @@ def sort_chunked(
     )
     max_value = max([rec["max"] for rec in relevant_records])
     min_value = min([rec["min"] for rec in relevant_records])
-    windows = list(windowed(np.linspace(min_value, max_value, n_chunks), 2))
-    # the last window must include max_value (and max_value + 1 may equal
-    # max_value if it's a large float)
-    windows[-1] = (windows[-1][0], np.inf)
+    # linspace can't handle infinite ranges
+    limit = np.finfo(float).max / 2
+    min_edge, max_edge = np.clip([min_value, max_value], -limit, limit)
+    windows = list(windowed(np.linspace(min_edge, max_edge, n_chunks), 2))
+    # the first and last windows must include min_value and max_value
+    windows[0] = (None, windows[0][1])
+    windows[-1] = (windows[-1][0], None)
     if direction == "descending":
         windows.reverse()
     try:
-- 
2.43.0


From 243c17b062cd65ea882e665f19f7ae6828d18b5c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 55/64] fix: read_between and sort_chunked failed on large
 integers

---
 dustgoggles/mosaic.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 9bcd391..f424058 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -1,4 +1,5 @@
 from itertools import product
+from math import ceil
 
 from cytoolz import keyfilter
 from more_itertools import windowed
@@ -91,6 +92,21 @@ def meta_column_df(parquet_fn, extended=False):
     return metadata.T
 
 
+# noinspection PyUnresolvedReferences
+def _at_least(column, bound):
+    """which elements of column, none of them null, are at least bound?"""
+    if not pa.types.is_integer(column.type):
+        return pac.greater_equal(column, bound)
+    # arrow doesn't compare large integers to floats or to other integer types
+    bound = bound.item() if hasattr(bound, "item") else bound
+    lowest, highest = pac.min_max(column).as_py().values()
+    if (lowest is None) or (bound <= lowest):
+        return pa.repeat(True, len(column))
+    if bound > highest:
+        return pa.repeat(False, len(column))
+    return pac.greater_equal(column, pa.scalar(ceil(bound), column.type))
+
+
 # noinspection PyUnresolvedReferences
 def read_between(
     parquet_file, field, bounds, meta_records, columns=None, verbose=True
@@ -121,9 +137,9 @@ def read_between(
             pac.invert(pac.is_null(group[field], nan_is_null=True))
         )
         if upper is not None:
-            group = group.filter(pac.less(group[field], upper))
+            group = group.filter(pac.invert(_at_least(group[field], upper)))
         if lower is not None:
-            group = group.filter(pac.greater_equal(group[field], lower))
+            group = group.filter(_at_least(group[field], lower))
         bound_groups.append(group)
     return pa.concat_tables(bound_groups)
 
@@ -164,7 +180,9 @@ def sort_chunked(
     min_value = min([rec["min"] for rec in relevant_records])
     # linspace can't handle infinite ranges
     limit = np.finfo(float).max / 2
-    min_edge, max_edge = np.clip([min_value, max_value], -limit, limit)
+    min_edge, max_edge = np.clip(
+        [float(min_value), float(max_value)], -limit, limit
+    )
     windows = list(windowed(np.linspace(min_edge, max_edge, n_chunks), 2))
     # the first and last windows must include min_value and max_value
     windows[0] = (None, windows[0][1])
-- 
2.43.0


From c7317e5d1a04208c79cd611e5f4a3551e7d998d8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:09:53 +0000
Subject: [PATCH 56/64] fix: sort_chunked failed if no row has a value to sort
 by

---
 dustgoggles/mosaic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index f424058..85a6ccb 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -176,8 +176,8 @@ def sort_chunked(
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-    max_value = max([rec["max"] for rec in relevant_records])
-    min_value = min([rec["min"] for rec in relevant_records])
+    max_value = max([rec["max"] for rec in relevant_records], default=0)
+    min_value = min([rec["min"] for rec in relevant_records], default=0)
     # linspace can't handle infinite ranges
     limit = np.finfo(float).max / 2
     min_edge, max_edge = np.clip(
-- 
2.43.0


From e12adeb5efa6996f65493da12dcaa0afa81608e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 57/64] fix: row groups without statistics broke metadata and
 bounded reads

---
 dustgoggles/mosaic.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 85a6ccb..7e632c5 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -28,7 +28,8 @@ def parquet_metadata_records(parquet_fn):
     ):
         record = meta.row_group(group_ix).column(col_ix).to_dict()
         if "statistics" in record.keys():
-            record |= record.pop("statistics")
+            # there may be none
+            record |= record.pop("statistics") or {}
         records.append(record | {"row_group": group_ix, "col_ix": col_ix})
     return records
 
@@ -119,9 +120,11 @@ def read_between(
     lower, upper = bounds
     bound_records = []
     for rec in meta_records:
-        if (upper is not None) and (rec["min"] > upper):
+        # groups without statistics, or with only nulls, have no min / max
+        low, high = rec.get("min"), rec.get("max")
+        if None not in (upper, low) and low > upper:
             continue
-        if (lower is not None) and (rec["max"] < lower):
+        if None not in (lower, high) and high < lower:
             continue
         bound_records.append(rec)
     if verbose is True:
@@ -166,18 +169,20 @@ def sort_chunked(
         open_kwargs["use_dictionary"] = use_dictionary
     sort_reader = parquet.ParquetFile(input_file)
     meta_records = parquet_metadata_records(input_file)
-    # row groups that contain only nulls have no min / max
     relevant_records = [
-        rec for rec in meta_records
-        if rec["path_in_schema"] == sort_column and rec["max"] is not None
+        rec for rec in meta_records if rec["path_in_schema"] == sort_column
+    ]
+    # row groups without statistics, or with only nulls, have no min / max
+    bounded_records = [
+        rec for rec in relevant_records if rec.get("max") is not None
     ]
     if schema is None:
         schema = sort_reader.read_row_group(0).schema
     sort_writer = parquet.ParquetWriter(
         output_file, version=version, schema=schema, **open_kwargs
     )
-    max_value = max([rec["max"] for rec in relevant_records], default=0)
-    min_value = min([rec["min"] for rec in relevant_records], default=0)
+    max_value = max([rec["max"] for rec in bounded_records], default=0)
+    min_value = min([rec["min"] for rec in bounded_records], default=0)
     # linspace can't handle infinite ranges
     limit = np.finfo(float).max / 2
     min_edge, max_edge = np.clip(
-- 
2.43.0


From ae516dd5d993e450763661cb0b63c6d58c0167c8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 58/64] fix: metadata of equally large row groups could not be
 tabulated

---
 dustgoggles/mosaic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 7e632c5..76630f1 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -48,6 +48,7 @@ def _flatten_meta_df(meta_df, extended):
         col_stats = col_slice[
             ["num_values", "total_compressed_size", "total_uncompressed_size"]
         ].sum()
+        constants = keyfilter(lambda k: k not in col_stats.index, constants)
         col_series.append(pd.concat([pd.Series(constants), col_stats]))
     return pd.concat(col_series, axis=1).T
 
-- 
2.43.0


From 4666cfa460b96111aad0f3ecf77c7b8de9c22fa1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 59/64] fix: constants of complex columns could not be
 extracted

---
 dustgoggles/pivot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index b915e39..dede3e1 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -111,7 +111,7 @@ def extract_constants(
     if to_dict:
         # bfill in case the first value is one that dropna told us to ignore
         if how == "rows":
-            constants = constants.bfill().astype(object).iloc[0].to_dict()
+            constants = constants.astype(object).bfill().iloc[0].to_dict()
         else:
             constants = constants.astype(object).bfill(axis=1)
             constants = constants.iloc[:, 0].to_dict()
-- 
2.43.0


From f0276282d413553f9f8cf4d58572a1a518b11f74 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:47:01 +0000
Subject: [PATCH 60/64] fix: chunked sorts by decimal columns lost rows

---
 dustgoggles/mosaic.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/mosaic.py b/dustgoggles/mosaic.py
index 76630f1..3888b02 100644
--- a/dustgoggles/mosaic.py
+++ b/dustgoggles/mosaic.py
@@ -1,3 +1,4 @@
+from decimal import Context, Decimal, ROUND_CEILING
 from itertools import product
 from math import ceil
 
@@ -97,16 +98,26 @@ def meta_column_df(parquet_fn, extended=False):
 # noinspection PyUnresolvedReferences
 def _at_least(column, bound):
     """which elements of column, none of them null, are at least bound?"""
-    if not pa.types.is_integer(column.type):
+    is_decimal = pa.types.is_decimal(column.type)
+    if not (pa.types.is_integer(column.type) or is_decimal):
         return pac.greater_equal(column, bound)
-    # arrow doesn't compare large integers to floats or to other integer types
+    # arrow doesn't compare large integers to floats or to other integer types,
+    # and rounds decimals to compare them to floats
     bound = bound.item() if hasattr(bound, "item") else bound
     lowest, highest = pac.min_max(column).as_py().values()
     if (lowest is None) or (bound <= lowest):
         return pa.repeat(True, len(column))
     if bound > highest:
         return pa.repeat(False, len(column))
-    return pac.greater_equal(column, pa.scalar(ceil(bound), column.type))
+    if is_decimal:
+        bound = Decimal(bound).quantize(
+            Decimal(1).scaleb(-column.type.scale),
+            ROUND_CEILING,
+            Context(prec=100)
+        )
+    else:
+        bound = ceil(bound)
+    return pac.greater_equal(column, pa.scalar(bound, column.type))
 
 
 # noinspection PyUnresolvedReferences
-- 
2.43.0


From 768d3733a032335b1447dbee99c7c476c2b4a953 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 61/64] fix: uncopied shared arrays crashed readers once their
 GridPaper was gone

---
 dustgoggles/codex/codecs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustgoggles/codex/codecs.py b/dustgoggles/codex/codecs.py
index 7a87e4c..bd106fd 100644
--- a/dustgoggles/codex/codecs.py
+++ b/dustgoggles/codex/codecs.py
@@ -4,6 +4,7 @@ import pickle
 
 from multiprocessing.shared_memory import SharedMemory
 from typing import Any, Callable, Optional
+from weakref import finalize
 
 from dustgoggles.codex.memutilz import (
     open_block, fetch_block_bytes, exists_block
@@ -172,6 +173,8 @@ def numpy_mnemonic_factory() -> tuple[Callable, Callable]:
         )
         if copy is True:
             return array.copy(), None
+        # closing the block would unmap the memory the array is still using
+        finalize(array, zero, block).atexit = False
         return array, block
 
     return memorize_array, remember_array
-- 
2.43.0


From 7191b5b4584edfed86d61afa116cfc9e1dc48036 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:45:56 +0000
Subject: [PATCH 62/64] fix: downcast to nullable integers always failed

---
 dustgoggles/pivot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dustgoggles/pivot.py b/dustgoggles/pivot.py
index dede3e1..3165748 100644
--- a/dustgoggles/pivot.py
+++ b/dustgoggles/pivot.py
@@ -172,7 +172,13 @@ def check_in_dtype_bounds(
 
 
 def _maybeseries(arr, dtype, library, name, aerr, rerr):
-    arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
+    if isinstance(dtype, pd.api.extensions.ExtensionDtype):
+        # numpy doesn't know nullable integers
+        null = np.isnan(arr)
+        arr = np.where(null, 0, arr).astype(dtype.numpy_dtype)
+        arr = pd.arrays.IntegerArray(arr, null)
+    else:
+        arr = arr.copy() if arr.dtype == dtype else arr.astype(dtype)
     if library == 'pandas':
         arr = pd.Series(arr, name=name)
     return {'recast': arr, 'aerr': aerr, 'rerr': rerr}
@@ -220,6 +226,8 @@ def downcast(
         # there's no meaningful way to recast in this case
         return _maybeseries(arr, arr.dtype, library, name, 0, 0)
     has_nonfinite = arr_finite.size < arr.size
+    # only NaNs are like nulls
+    use_nillable_int = use_nillable_int and not np.isinf(arr).any()
     nzero_mask = arr_finite != 0
     arr_nzero = arr_finite[nzero_mask]
     if arr_nzero.size == 0 and not has_nonfinite:
@@ -254,9 +262,8 @@ def downcast(
             continue
         if kind in ('uint', 'int') and has_nonfinite:
             # we've already checked to make sure we're returning this as pandas
-            dtype = getattr(
-                pd, f"{kind[0].upper()}{kind[1:].capitalize}{number}Dtype"
-            )()
+            prefix = "UInt" if kind == "uint" else "Int"
+            dtype = getattr(pd, f"{prefix}{number}Dtype")()
         return _maybeseries(arr, dtype, library, name, aerr, rerr)
     raise TypeError("Unusual error in recasting this array.")
 
-- 
2.43.0


From 8b107b4eb4631f12cdd155a82322e79c901010bf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:52:42 +0000
Subject: [PATCH 63/64] fix: exceptions returned by pooled functions were
 raised

---
 dustgoggles/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index f3c617e..ef48b3d 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -339,16 +339,17 @@ class HashDict:
 
 class MaybeResult:
     def __init__(self, func, args, kwargs):
+        self.value, self.exception = None, None
         try:
             self.value = func(*args, **kwargs)
         except KeyboardInterrupt:
             raise
         except Exception as ex:
-            self.value = ex
+            self.exception = ex
 
     def get(self):
-        if isinstance(self.value, Exception):
-            raise self.value
+        if self.exception is not None:
+            raise self.exception
         return self.value
 
     @staticmethod
-- 
2.43.0


From 9e9d9ab9d2c3ec38e03ca9cf9656a1c0bec16585 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:55:02 +0000
Subject: [PATCH 64/64] fix: pools changed their argument records and lost
 those of an iterator

---
 dustgoggles/structures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustgoggles/structures.py b/dustgoggles/structures.py
index ef48b3d..e35c2d7 100644
--- a/dustgoggles/structures.py
+++ b/dustgoggles/structures.py
@@ -373,6 +373,8 @@ class MaybePool:
             self.pool = Pool(threads)
 
     def map(self, func, argrecs, as_chunks=False):
+        # don't modify the caller's records
+        argrecs = [dict(rec) for rec in argrecs]
         for i, rec in enumerate(argrecs):
             rec['key'] = rec.get('key', i)
             rec['args'] = rec.get('args', ())
-- 
2.43.0

