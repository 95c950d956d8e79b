From 34de63c3492ade58dfdc24bf36ab5cae7d2a96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 01/88] fix: a lazy operand anywhere in a ufunc broadcasts like
 the array it stands for

Only VirtualArray.__array_ufunc__ materialized lazy operands, so it depended on
which operand numpy asked first: jagged + lazy jagged raised, table + lazy table
nested the whole lazy table into every column, union + lazy union gave wrong
values.
---
 awkward0/array/base.py    | 11 +++++++++++
 awkward0/array/chunked.py |  2 ++
 awkward0/array/indexed.py |  4 ++++
 awkward0/array/jagged.py  |  2 ++
 awkward0/array/masked.py  |  2 ++
 awkward0/array/objects.py |  4 ++++
 awkward0/array/table.py   |  2 ++
 awkward0/array/union.py   |  2 ++
 8 files changed, 29 insertions(+)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..903295c 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -397,6 +397,17 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 else:
                     return cls.numpy.array(value, copy=False)
 
+    @classmethod
+    def _util_materialize(cls, inputs):
+        # an operand's laziness must not change how it broadcasts against the others
+        import awkward0.array.virtual
+        out = []
+        for x in inputs:
+            while isinstance(x, awkward0.array.virtual.VirtualArray):
+                x = x.array
+            out.append(x)
+        return out
+
     @classmethod
     def _util_arraystr_draw(cls, x):
         if isinstance(x, tuple):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..c13149c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -527,6 +527,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         first = None
         rest = []
         for x in inputs:
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..39ad93b 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -190,6 +190,8 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         inputs = list(inputs)
         for i in range(len(inputs)):
             if isinstance(inputs[i], IndexedArray):
@@ -690,6 +692,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         inputs = list(inputs)
         for i in range(len(inputs)):
             if isinstance(inputs[i], SparseArray):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..1afa9bb 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -951,6 +951,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         starts, stops = None, None
         for i in range(len(inputs)):
             if isinstance(inputs[i], JaggedArray):
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..956e5d7 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -210,6 +210,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         tokeep = None
         for x in inputs:
             if isinstance(x, MaskedArray):
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..d966d75 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -207,6 +207,8 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         contents = []
         for x in inputs:
             if isinstance(x, ObjectArray):
@@ -313,6 +315,8 @@ class StringMethods(object):
         if method != "__call__":
             raise NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         if ufunc is self.numpy.equal or ufunc is self.numpy.not_equal:
             if len(inputs) < 2:
                 raise ValueError("invalid number of arguments")
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..e297524 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -672,6 +672,8 @@ class Table(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         inputsdict = None
         for x in inputs:
             if isinstance(x, Table):
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..2489801 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -363,6 +363,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_materialize(inputs)
+
         tags = []
         for x in inputs:
             if isinstance(x, UnionArray):
-- 
2.43.0


From 724ef38eafbab57fb77ccec13bd8e239d7806d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 02/88] fix: reducers of masked and indexed arrays see through
 lazy content

With a lazy Table (or lazy numbers) as content the isinstance tests that pick
the algorithm failed and the reduction raised.
---
 awkward0/array/indexed.py | 12 ++++++++++++
 awkward0/array/masked.py  |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 39ad93b..ae50e69 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -257,6 +257,9 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self._util_regular(self._content[self._index])
 
     def _reduce(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._reduce(ufunc, identity, dtype)
+
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
@@ -277,6 +280,9 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._prepare(ufunc, identity, dtype)
+
         if isinstance(self._content, self.numpy.ndarray):
             return self._content[self._index]
         else:
@@ -742,6 +748,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def _reduce(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._reduce(ufunc, identity, dtype)
+
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
@@ -762,6 +771,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._prepare(ufunc, identity, dtype)
+
         if isinstance(self._content, self.numpy.ndarray):
             return self.dense
         else:
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 956e5d7..27046a1 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -319,6 +319,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return IndexedMaskedArray(maskindex, self._content, maskedwhen=-1)
 
     def _reduce(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._reduce(ufunc, identity, dtype)
+
         if self._util_hasjagged(self._content):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
@@ -339,6 +342,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return ufunc.reduce(prepared)
 
     def _prepare(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._prepare(ufunc, identity, dtype)
+
         if isinstance(self._content, awkward0.array.table.Table):
             out = self._content.copy(contents={})
             for n, x in self._content._contents.items():
@@ -863,6 +869,9 @@ class IndexedMaskedArray(MaskedArray):
         return self
 
     def _prepare(self, ufunc, identity, dtype):
+        if isinstance(self._content, awkward0.array.virtual.VirtualArray):
+            return self.copy(content=self._content.array)._prepare(ufunc, identity, dtype)
+
         if isinstance(self._content, awkward0.array.table.Table):
             out = self._content.copy(contents={})
             for n, x in self._content._contents.items():
-- 
2.43.0


From f60ead77537928bb34b13ef1e1cc9981d14b9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 03/88] fix: len() of a lazy UnionArray

The length was taken from the Numpy shape of the type, which a union has not.
---
 awkward0/array/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..4ff21c3 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -264,7 +264,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._nbytes = value
 
     def __len__(self):
-        return self.shape[0]
+        return self.type.takes
 
     def _valid(self):
         if self.check_whole_valid:
-- 
2.43.0


From ced904bad1e43d80601a5d7e94e59c27bcf3f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 04/88] fix: the type of an array does not depend on when lazy
 parts are freed

fromarray() memoizes by id(); while it walks lazily loaded columns, content that
no cache retains is freed and the next array may get the same id, so a column
was reported (and checked) with another column's type.
---
 awkward0/type.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..57c1323 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -628,6 +628,7 @@ def fromarray(array):
 def _fromarray(array, seen):
     if id(array) not in seen:
         seen[id(array)] = placeholder = Placeholder()
+        placeholder.array = array   # a lazy array's content may be freed (evicted) on the way: its id must not be reused
 
         if isinstance(array, numpy.ndarray):
             if array.dtype.names is None:
-- 
2.43.0


From 23e2ef7c0a7688a7670d0d23fb80a55690dfb14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 05/88] fix: a doubly jagged index selects from lazy inner
 content

isinstance tests on the content decide whether the index is doubly jagged; a
lazily loaded inner JaggedArray failed them and the selection raised.
---
 awkward0/array/jagged.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 1afa9bb..773b0dd 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -535,8 +535,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(head) == 1 and isinstance(head[0], JaggedArray):
             head = head[0]
 
-            if isinstance(self._content, JaggedArray) and isinstance(head._content, JaggedArray):
-                return self.copy(content=self._content[head._content])
+            content, headcontent = self._util_materialize([self._content, head._content])
+            if isinstance(content, JaggedArray) and isinstance(headcontent, JaggedArray):
+                return self.copy(content=content[headcontent])
 
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
-- 
2.43.0


From f246bf2ad1a00bfe6b7aa735547b425762bb97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 06/88] fix: a ChunkedArray derived from another does not keep
 the other's offsets

copy(chunks=...) forgot the chunk sizes but kept the cached offsets; when the
sizes were rediscovered by iteration, astype, fillna or a single-item index, the
old offsets were used for the new chunks (wrong length, wrong elements).
---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index c13149c..f8cbc2b 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -25,6 +25,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if chunks is not None:
             out.chunks = chunks
             out._chunksizes = []
+            out._offsets = None
         if chunksizes is not None:
             out.chunksizes = chunksizes
         return out
-- 
2.43.0


From 1827f72e4d2af1925999d76e29d4e0a75dafb922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 07/88] fix: reducing a lazy Table does not cast its columns
 like its boolean ones

The dtype chosen for a boolean column was kept for the columns after it, so
prod/sum of a float column next to a boolean one was truncated to integers.
---
 awkward0/array/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index e297524..8b948c4 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -859,8 +859,8 @@ class Table(awkward0.array.base.AwkwardArray):
         for n, x in self._contents.items():
             if isinstance(x, self.numpy.ndarray):
                 if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    dtype = self.numpy.dtype(type(identity))
-                if dtype is not None:
+                    x = x.astype(self.numpy.dtype(type(identity)))
+                elif dtype is not None:
                     x = x.astype(dtype)
             else:
                 x = x._prepare(ufunc, identity, dtype)
-- 
2.43.0


From a9a8e8a33aa0797b6b4ae7e35493097a587ef6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 08/88] fix: columns of a union of lazy tables do not depend on
 when their content is freed

Visited arrays are remembered by id(); a lazy array's content can be freed right
after its visit and its id given to the next alternative, whose columns were
then left out.
---
 awkward0/array/virtual.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 4ff21c3..2b66a57 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -473,13 +473,15 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return []
         seen.add(id(self))
-        return self._util_columns_descend(self.array, seen)
+        array = self.array
+        return self._util_columns_descend(array, set(seen))     # if array is freed after this, its ids must not stay in seen
 
     def _util_rowname(self, seen):
         if id(self) in seen:
             raise TypeError("not a Table, so there is no rowname")
         seen.add(id(self))
-        return self._util_rowname_descend(self.array, seen)
+        array = self.array
+        return self._util_rowname_descend(array, set(seen))     # if array is freed after this, its ids must not stay in seen
 
     def astype(self, dtype):
         return self.array.astype(dtype)
-- 
2.43.0


From 42e6d4b440dd42ceaf95fcebf2fc16d0f790c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 09/88] fix: a copy of a VirtualArray has its own cache entry

---
 awkward0/array/virtual.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 2b66a57..993a114 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -80,11 +80,16 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             out.nbytes = nbytes
         if persistvirtual is not None:
             out.persistvirtual = persistvirtual
+        if isinstance(out._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            out._array = None if out._cache is None else out.key        # a key belongs to one VirtualArray
+        elif generator is not None or args is not None or kwargs is not None:
+            out._array = None
         return out
 
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        if not isinstance(out._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            out._array = self._util_deepcopy(out._array)
         if out._setitem is not None:
             for n in list(out._setitem):
                 out._setitem[n] = self._util_deepcopy(out._setitem[n])
@@ -312,8 +317,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     return self.materialize()
             else:
                 # abnormal state (7)
-                self._cache[self.key] = self._array
-                return self._array
+                array = self._array
+                self._cache[self.key] = array
+                self._array = self.key
+                return array
 
     @property
     def ismaterialized(self):
-- 
2.43.0


From 5e21ef45e40cc133f65281870fb094d9b889749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 10/88] fix: column edits of a VirtualArray are replayed as
 they were made

---
 awkward0/array/virtual.py | 84 +++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 25 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 993a114..805e658 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -40,9 +40,9 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         self.type = type
         self.nbytes = nbytes
         self.persistvirtual = persistvirtual
-        self._array = None if cache is None else self.key
         self._setitem = None
         self._delitem = None
+        self._array = None if cache is None else self.key
 
     def copy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         # FIXME: arguments through **kwargs because undef is different from None (None has meaning for some of them)
@@ -91,8 +91,9 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if not isinstance(out._array, (VirtualArray.TransientKey, awkward0.util.string)):
             out._array = self._util_deepcopy(out._array)
         if out._setitem is not None:
-            for n in list(out._setitem):
-                out._setitem[n] = self._util_deepcopy(out._setitem[n])
+            for n, x in out._setitem.items():
+                if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                    out._setitem[n] = self._util_deepcopy(x)
         return out
 
     def empty_like(self, **overrides):
@@ -277,10 +278,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @property
     def key(self):
-        if self._persistentkey is not None:
+        if self._persistentkey is not None and self._setitem is None and self._delitem is None:
             return self._persistentkey
         else:
-            return self.TransientKey(id(self))
+            return self.TransientKey(id(self))      # edited columns are not what the persistentkey stands for
 
     @property
     def array(self):
@@ -331,12 +332,15 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
+        if self._setitem is not None or self._delitem is not None:
+            array = self._util_editable(array)
+        if self._delitem is not None:
+            for n in self._delitem:
+                if n in array.columns:
+                    del array[n]
         if self._setitem is not None:
             for n, x in self._setitem.items():
                 array[n] = x
-        if self._delitem is not None:
-            for n in self._delitem:
-                del array[n]
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -344,6 +348,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 (not isinstance(self._type, awkward0.type.Type) and not self._type == materializedtype)):
                 raise TypeError("materialized array has type\n\n{0}\n\nexpected type\n\n{1}".format(awkward0.type._str(awkward0.type.fromarray(array), indent="    "), awkward0.type._str(self._type, indent="    ")))
 
+        self._hold(array)
+        return array
+
+    def _hold(self, array):
         if self._cache is None:
             # states (1), (2), and (6)
             self._array = array
@@ -352,8 +360,6 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._array = self.key
             self._cache[self._array] = array
 
-        return array
-
     def __del__(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
@@ -375,24 +381,52 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __getitem__(self, where):
         return self.array[where]
 
+    @classmethod
+    def _util_editable(cls, array):
+        # columns are added to or removed from a copy, not from an array that others (copies, the generator) may hold
+        if not isinstance(array, awkward0.array.base.AwkwardArray):
+            return array
+        elif isinstance(array, (awkward0.array.table.Table, VirtualArray)):
+            return array.copy()
+        elif isinstance(array, awkward0.array.chunked.ChunkedArray):
+            return array.copy(chunks=[cls._util_editable(x) for x in array._chunks])
+        elif isinstance(array, awkward0.array.union.UnionArray):
+            return array.copy(contents=[cls._util_editable(x) for x in array._contents])
+        elif hasattr(array, "_content"):
+            return array.copy(content=cls._util_editable(array._content))
+        else:
+            return array.copy()
+
+    def _edit(self, array, setitem, delitem):
+        before = self._setitem, self._delitem, self._type, self._array
+        try:
+            self._setitem, self._delitem = setitem, delitem
+            if self._type is not None:
+                self._type = awkward0.type.fromarray(array)
+            self._hold(array)
+        except:
+            self._setitem, self._delitem, self._type, self._array = before
+            raise
+
     def __setitem__(self, where, what):
-        self.array[where] = what
-        if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is None:
-            self._setitem = OrderedDict()
-        self._setitem[where] = what
+        array = self._util_editable(self.array)
+        setitem = OrderedDict() if self._setitem is None else OrderedDict(self._setitem)
+        if isinstance(where, awkward0.util.string):
+            if isinstance(what, list):
+                what = list(what)       # it will be used again, and the caller may change it before
+            setitem[where] = what
+        elif self._util_isstringslice(where):
+            setitem.update(zip(where, what.unzip()))
+        array[where] = what
+        self._edit(array, setitem, self._delitem)
 
     def __delitem__(self, where):
-        del self.array[where]
-        if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is not None and where in self._setitem:
-            del self._setitem
-        if self._delitem is None:
-            self._delitem = []
-        if where not in self._delitem:
-            self._delitem.append(where)
+        array = self._util_editable(self.array)
+        del array[where]
+        names = [where] if isinstance(where, awkward0.util.string) else list(where)
+        setitem = None if self._setitem is None else OrderedDict((n, x) for n, x in self._setitem.items() if n not in names)
+        delitem = [] if self._delitem is None else [n for n in self._delitem if n not in names]
+        self._edit(array, setitem, delitem + names)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From ad3804b53cd4605d3f4634890f1c7f86c2a7504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 11/88] fix: ismaterialized works with every cache a
 VirtualArray accepts

---
 awkward0/array/virtual.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 805e658..5f172e1 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -267,7 +267,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     raise TypeError("nbytes must be an integer or None")
                 if value < 0:
                     raise ValueError("nbytes must be a non-negative integer or None")
-            self._nbytes = value
+        self._nbytes = value
 
     def __len__(self):
         return self.type.takes
@@ -327,8 +327,17 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def ismaterialized(self):
         if self._cache is None:
             return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
+        elif isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            if hasattr(self._cache, "__contains__"):
+                return self._array in self._cache
+            try:
+                self._cache[self._array]
+            except KeyError:
+                return False
+            else:
+                return True
         else:
-            return self._array is not None and self._array in self._cache
+            return self._array is not None
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
-- 
2.43.0


From 8ffbf4af4d71304e91e178fb7d57626ab92dcf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 12/88] fix: a chunk failing to load with IndexError does not
 shorten a slice

---
 awkward0/array/chunked.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index f8cbc2b..1d01c05 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -120,6 +120,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             self._chunksizes.append(len(self._chunks[i]))
             self._offsets = None
 
+    def _knowuntil(self, index):
+        # discovers chunksizes until index is in a known chunk; False if there is no such chunk
+        while True:
+            known = self.chunksizesknown
+            if index < self.offsets[-1]:
+                return True
+            if known:
+                return False
+            self.knowchunksizes(len(self._chunksizes) + 1)
+
     def knowtype(self, at):
         if not 0 <= at < len(self._chunks):
             raise ValueError("cannot knowtype at chunkid {0} with {1} chunks".format(at, len(self._chunks)))
@@ -140,13 +150,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if index < 0:
                 raise IndexError("index {0} out of bounds for length {1}".format(original_index, len(self)))
 
-            cumulative = self.offsets[-1]
-            while index >= cumulative:
-                if self.chunksizesknown:
-                    raise IndexError("index {0} out of bounds for length {1}".format(original_index, len(self)))
-                count = len(self._chunks[len(self._chunksizes)])
-                cumulative += count
-                self._chunksizes.append(count)
+            if not self._knowuntil(index):
+                raise IndexError("index {0} out of bounds for length {1}".format(original_index, len(self)))
 
             out = self.numpy.searchsorted(self.offsets, index, "right") - 1
 
@@ -368,12 +373,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 # case C start below 0
                 start_chunkid = -1
             else:
-                try:
+                if self._knowuntil(start):
                     start_chunkid = self.global2chunkid(start)
-                except IndexError:
-                    if start >= 0:
-                        # case A or B start was set beyond len(self), clamp it
-                        start, start_chunkid = len(self), len(self._chunks)
+                else:
+                    # case A or B start was set beyond len(self), clamp it
+                    start, start_chunkid = len(self), len(self._chunks)
                     if step < 0:
                         start -= 1
                         start_chunkid -= 1
@@ -382,9 +386,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 # case B or C stop not set with step < 0; go all the way to 0
                 stop_chunkid = -1
             else:
-                try:
-                    stop_chunkid = self.global2chunkid(stop)
-                except IndexError:
+                if not self._knowuntil(stop):
                     # stop is at or beyond len(self), clamp it
                     stop = len(self)
                 if step > 0:
-- 
2.43.0


From 689bef3f2f0b1a1ddc5bc5146a038ce78102d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 13/88] fix: deepcopy of a ChunkedArray

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 1d01c05..4b330fa 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -32,7 +32,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From 3a1a2aada065a379c98c10b4d024c1336aed7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 14/88] fix: ChunkedArray.global2local and local2global of
 index arrays

---
 awkward0/array/chunked.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 4b330fa..d340ad1 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -186,7 +186,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_isinteger(index):
             return self._chunks[chunkid], index - self.offsets[chunkid]
         else:
-            return self.numpy.array(self._chunks, dtype=self.numpy.object)[chunkid], index - self.offsets[chunkid]
+            chunks = self.numpy.empty(len(self._chunks), dtype=self.numpy.object)
+            for i, chunk in enumerate(self._chunks):
+                chunks[i] = chunk
+            return chunks[chunkid], index - self.offsets[chunkid]
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
@@ -208,12 +211,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
-                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
-- 
2.43.0


From ff5c6925bfdbac7b6adce935123290446e5a1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 15/88] fix: discovering chunk sizes twice at once does not
 record a chunk twice

---
 awkward0/array/chunked.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index d340ad1..7d9af27 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -100,9 +100,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def offsets(self):
-        if self._offsets is None or len(self._offsets) != len(self._chunksizes) + 1:
-            self._offsets = self.JaggedArray.counts2offsets(self._chunksizes)
-        return self._offsets
+        chunksizes = list(self._chunksizes)
+        offsets = self._offsets
+        if offsets is None or len(offsets) != len(chunksizes) + 1:
+            offsets = self._offsets = self.JaggedArray.counts2offsets(chunksizes)
+        return offsets
 
     @property
     def chunksizesknown(self):
@@ -117,8 +119,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             until = len(self._chunks)
         until = min(until, len(self._chunks))
         for i in range(len(self._chunksizes), until):
-            self._chunksizes.append(len(self._chunks[i]))
-            self._offsets = None
+            count = len(self._chunks[i])
+            self._chunksizes[i : i + 1] = [count]       # loading the chunk may have let another reader discover it
 
     def _knowuntil(self, index):
         # discovers chunksizes until index is in a known chunk; False if there is no such chunk
@@ -290,8 +292,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if checkiter:
             self._checkiter()
         for i, chunk in enumerate(self._chunks):
-            if i >= len(self._chunksizes):
-                self._chunksizes.append(len(chunk))
+            self.knowchunksizes(i + 1)
             for x in chunk[:self._chunksizes[i]]:
                 yield x
 
-- 
2.43.0


From fe277d468e26dd13fbd1e6d4c1d3868d2c45645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 16/88] fix: an AppendableArray shows what was appended and
 nothing else

---
 awkward0/array/chunked.py | 65 ++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 7d9af27..ad1b762 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -42,19 +42,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        return self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
@@ -830,19 +830,23 @@ class AppendableArray(ChunkedArray):
         self.dtype = dtype
         self.chunks = chunks
 
-    def copy(self, chunkshape=None, dtype=None, chunks=None):
+    def copy(self, chunkshape=None, dtype=None, chunks=None, chunksizes=None):
         out = self.__class__.__new__(self.__class__)
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
         out._chunks = list(self._chunks)
+        out._chunksizes = list(self._chunksizes)
+        out._types = list(self._types)
+        out._buffer = None          # only one array may fill the rest of the last chunk
         if chunkshape is not None:
-            out._chunkshape = chunkshape
+            out.chunkshape = chunkshape
         if dtype is not None:
-            out._dtype = dtype
+            out.dtype = dtype
         if chunks is not None:
+            chunks = [self._util_toarray(x, self.DEFAULTTYPE) for x in chunks]
+            if not all(isinstance(x, self.numpy.ndarray) and x.dtype == out._dtype and x.shape[1:] == out._chunkshape[1:] for x in chunks):
+                return self.ChunkedArray(chunks, [] if chunksizes is None else chunksizes)
             out.chunks = chunks
-        out._chunksizes = list(self._chunksizes)
-        out._types = list(self._types)
         return out
 
     def _mine(self, overrides):
@@ -888,7 +892,7 @@ class AppendableArray(ChunkedArray):
                     raise TypeError("chunkshape must be a positive integer or a tuple of integers")
                 except AssertionError:
                     raise ValueError("chunkshape must be a positive integer or tuple of positive integers")
-                self._chunkshape = tuple(value)
+            self._chunkshape = tuple(value)
 
     @property
     def dtype(self):
@@ -919,6 +923,7 @@ class AppendableArray(ChunkedArray):
         self._chunks = chunks
         self._chunksizes = [len(x) for x in self._chunks]
         self._types = [None] * len(self._chunks)
+        self._buffer = None
 
     @property
     def chunksizes(self):
@@ -960,25 +965,36 @@ class AppendableArray(ChunkedArray):
     def __delitem__(self, where):
         raise TypeError("array has no Table, cannot remove columns")
 
-    def append(self, value):
-        if len(self._chunks) == 0 or self._chunksizes[-1] == len(self._chunks[-1]):
+    # self._chunks[-1] is the filled part of self._buffer, if there is a buffer
+
+    def _room(self):
+        if self._buffer is not None and self._chunksizes[-1] < len(self._buffer):
+            return self._buffer, self._chunksizes[-1]
+        else:
+            return self.numpy.empty(self._chunkshape, dtype=self._dtype), 0
+
+    def _fill(self, buffer, size):
+        if buffer is not self._buffer:
             self._types.append(None)
             self._chunksizes.append(0)
-            self._chunks.append(self.numpy.empty(self._chunkshape, dtype=self._dtype))
+            self._chunks.append(buffer[:0])
+            self._buffer = buffer
+        self._chunks[-1] = buffer[:size]
+        self._chunksizes[-1] = size
 
-        self._chunks[-1][self._chunksizes[-1]] = value
-        self._chunksizes[-1] += 1
+    def append(self, value):
+        buffer, size = self._room()
+        buffer[size] = value
+        self._fill(buffer, size + 1)
 
     def extend(self, values):
+        if values is self:
+            values = self[:]
         while len(values) > 0:
-            if len(self._chunks) == 0 or self._chunksizes[-1] == len(self._chunks[-1]):
-                self._types.append(None)
-                self._chunksizes.append(0)
-                self._chunks.append(self.numpy.empty(self._chunkshape, dtype=self._dtype))
-
-            howmany = min(len(values), len(self._chunks[-1]) - self._chunksizes[-1])
-            self._chunks[-1][self._chunksizes[-1] : self._chunksizes[-1] + howmany] = values[:howmany]
-            self._chunksizes[-1] += howmany
+            buffer, size = self._room()
+            howmany = min(len(values), len(buffer) - size)
+            buffer[size : size + howmany] = values[:howmany]
+            self._fill(buffer, size + howmany)
             values = values[howmany:]
 
     def _hasjagged(self):
@@ -995,3 +1011,8 @@ class AppendableArray(ChunkedArray):
         for chunk in self._chunks:
             chunks.append(self._util_fillna(chunk, value))
         return self.copy(chunks=chunks)
+
+    @classmethod
+    def _concatenate_axis0(cls, arrays):
+        assert all(isinstance(x, ChunkedArray) for x in arrays)
+        return arrays[0].copy(chunks=[y for x in arrays for y in x._chunks])
-- 
2.43.0


From 6b892d28ae4f849c1c5ca9f08f42af395d655baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 17/88] fix: a column edit of a ChunkedArray happens in all
 chunks or in none

---
 awkward0/array/base.py    | 20 ++++++++++++++++++++
 awkward0/array/chunked.py | 17 ++++++++++-------
 awkward0/array/virtual.py | 16 ----------------
 3 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 903295c..e4ba063 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -445,6 +445,26 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         else:
             return array.deepcopy()
 
+    @classmethod
+    def _util_editable(cls, array):
+        # columns are added to or removed from a copy, not from an array that others (copies, the generator) may hold
+        import awkward0.array.chunked
+        import awkward0.array.table
+        import awkward0.array.union
+        import awkward0.array.virtual
+        if not isinstance(array, AwkwardArray):
+            return array
+        elif isinstance(array, (awkward0.array.table.Table, awkward0.array.virtual.VirtualArray)):
+            return array.copy()
+        elif isinstance(array, awkward0.array.chunked.ChunkedArray):
+            return array.copy(chunks=[cls._util_editable(x) for x in array._chunks])
+        elif isinstance(array, awkward0.array.union.UnionArray):
+            return array.copy(contents=[cls._util_editable(x) for x in array._contents])
+        elif hasattr(array, "_content"):
+            return array.copy(content=cls._util_editable(array._content))
+        else:
+            return array.copy()
+
     @classmethod
     def _util_hasjagged(cls, array):
         return isinstance(array, AwkwardArray) and array._hasjagged()
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index ad1b762..d05f5c7 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -509,22 +509,25 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def __setitem__(self, where, what):
         if isinstance(what, ChunkedArray) and self._aligned(what):
-            for i, (mine, theirs) in enumerate(zip(self._chunks, what._chunks)):
+            chunks = [self._util_editable(x) for x in self._chunks]
+            for mine, theirs in zip(chunks, what._chunks):
                 mine[where] = theirs
-                self._types[i] = mine.type.to
+            self._chunks, self._types = chunks, [None] * len(chunks)
         else:
             raise ValueError("only ChunkedArrays with the same chunk sizes can be assigned to columns of a ChunkedArray")
 
     def __delitem__(self, where):
         if isinstance(where, awkward0.util.string):
-            for chunk in self._chunks:
-                del chunk[where]
+            names = [where]
         elif self._util_isstringslice(where):
-            for chunk in self._chunks:
-                for x in where:
-                    del chunk[x]
+            names = where
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
+        chunks = [self._util_editable(x) for x in self._chunks]
+        for chunk in chunks:
+            for x in names:
+                del chunk[x]
+        self._chunks, self._types = chunks, [None] * len(chunks)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 5f172e1..5deda97 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -390,22 +390,6 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __getitem__(self, where):
         return self.array[where]
 
-    @classmethod
-    def _util_editable(cls, array):
-        # columns are added to or removed from a copy, not from an array that others (copies, the generator) may hold
-        if not isinstance(array, awkward0.array.base.AwkwardArray):
-            return array
-        elif isinstance(array, (awkward0.array.table.Table, VirtualArray)):
-            return array.copy()
-        elif isinstance(array, awkward0.array.chunked.ChunkedArray):
-            return array.copy(chunks=[cls._util_editable(x) for x in array._chunks])
-        elif isinstance(array, awkward0.array.union.UnionArray):
-            return array.copy(contents=[cls._util_editable(x) for x in array._contents])
-        elif hasattr(array, "_content"):
-            return array.copy(content=cls._util_editable(array._content))
-        else:
-            return array.copy()
-
     def _edit(self, array, setitem, delitem):
         before = self._setitem, self._delitem, self._type, self._array
         try:
-- 
2.43.0


From 09590a60ca52707cb0e8157a5fd2733afffa3ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:18 +0000
Subject: [PATCH 18/88] fix: a scalar column of a VirtualArray is replayed with
 the length it had

---
 awkward0/array/virtual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 5deda97..d3cd3fd 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -411,6 +411,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         elif self._util_isstringslice(where):
             setitem.update(zip(where, what.unzip()))
         array[where] = what
+        if isinstance(where, awkward0.util.string) and not hasattr(what, "__len__"):
+            setitem[where] = array[where]       # a scalar may have to fill a table that has no other column left
         self._edit(array, setitem, self._delitem)
 
     def __delitem__(self, where):
-- 
2.43.0


From 6f9d7e30873f3f11a9f720478dfe2f9e0c2cf825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 19/88] fix: a column that fails to load with TypeError is not
 taken for a scalar

---
 awkward0/array/table.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 8b948c4..8d25098 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -628,27 +628,27 @@ class Table(awkward0.array.base.AwkwardArray):
             out._rowstart = None
             return out
 
+    def _column(self, what):
+        if not isinstance(what, awkward0.array.base.AwkwardArray):      # a failure to load it is not a scalar
+            try:
+                len(what)
+            except TypeError:
+                what = self.numpy.full(len(self), what)
+        return self._util_toarray(what, self.DEFAULTTYPE)
+
     def __setitem__(self, where, what):
         if self._view is not None:
             raise ValueError("new columns can only be attached to the original Table, not a view (try table.base['col'] = array)")
 
         if isinstance(where, awkward0.util.string):
-            try:
-                len(what)
-            except TypeError:
-                what = self.numpy.full(len(self), what)
-            self._contents[where] = self._util_toarray(what, self.DEFAULTTYPE)
+            self._contents[where] = self._column(what)
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                try:
-                    len(y)
-                except TypeError:
-                    y = self.numpy.full(len(self), y)
-                self._contents[x] = self._util_toarray(y, self.DEFAULTTYPE)
+                self._contents[x] = self._column(y)
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-- 
2.43.0


From 41dc4e93236e24a6f15faf15c873913568d68310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:09 +0000
Subject: [PATCH 20/88] fix: a failed edit of several Table columns changes
 none of them

---
 awkward0/array/table.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 8d25098..3567b31 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -647,8 +647,9 @@ class Table(awkward0.array.base.AwkwardArray):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            what = [self._column(y) for y in what]
             for x, y in zip(where, what):
-                self._contents[x] = self._column(y)
+                self._contents[x] = y
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
@@ -660,6 +661,9 @@ class Table(awkward0.array.base.AwkwardArray):
         if isinstance(where, awkward0.util.string):
             del self._contents[where]
         elif self._util_isstringslice(where):
+            contents = OrderedDict(self._contents)
+            for x in where:
+                del contents[x]
             for x in where:
                 del self._contents[x]
         else:
-- 
2.43.0


From 5d70c43942624d72f8bde48e30f29666f0a20eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 21/88] fix: the type, length and size of a VirtualArray of
 declared type never reload evicted data

---
 awkward0/array/virtual.py | 54 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index d3cd3fd..25b964c 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -216,26 +216,29 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         self._persistvirtual = bool(value)
 
     def _gettype(self, seen):
-        if self._type is None or self.ismaterialized:
-            return awkward0.type._fromarray(self.array, seen)
-        else:
+        array = self.array if self._type is None else self._held()
+        if array is None:
             return self._type.to
+        else:
+            return awkward0.type._fromarray(array, seen)
 
     def _util_layout(self, position, seen, lookup):
         args = (awkward0.type.LayoutArg("generator", self._generator),
                 awkward0.type.LayoutArg("args", self._args),
                 awkward0.type.LayoutArg("kwargs", dict(self._kwargs)))
-        if self.ismaterialized:
-            awkward0.type.LayoutNode(self.array, position + (0,), seen, lookup)
+        array = self._held()
+        if array is not None:
+            awkward0.type.LayoutNode(array, position + (0,), seen, lookup)
             args = args + (awkward0.type.LayoutArg("array", position + (0,)),)
         return args
 
     @property
     def type(self):
-        if self._type is None or self.ismaterialized:
-            return awkward0.type.ArrayType(len(self.array), awkward0.type._resolve(awkward0.type._fromarray(self.array, {}), {}))
-        else:
+        array = self.array if self._type is None else self._held()
+        if array is None:
             return self._type
+        else:
+            return awkward0.type.ArrayType(len(array), awkward0.type._resolve(awkward0.type._fromarray(array, {}), {}))
 
     @type.setter
     def type(self, value):
@@ -249,11 +252,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             return 0
         else:
             seen.add(id(self))
-            if self._nbytes is None or self.ismaterialized:
-                array = self.array
-                return (array.nbytes if isinstance(array, self.numpy.ndarray) else array._getnbytes(seen))
-            else:
+            array = self.array if self._nbytes is None else self._held()
+            if array is None:
                 return self._nbytes
+            else:
+                return (array.nbytes if isinstance(array, self.numpy.ndarray) else array._getnbytes(seen))
 
     @property
     def nbytes(self):
@@ -323,21 +326,24 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 self._array = self.key
                 return array
 
-    @property
-    def ismaterialized(self):
-        if self._cache is None:
-            return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
-        elif isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
-            if hasattr(self._cache, "__contains__"):
-                return self._array in self._cache
+    def _held(self):
+        # the array if it is held now, None if it would have to be loaded
+        if not isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)):
+            return self._array
+        elif self._cache is None:
+            return None
+        else:
             try:
-                self._cache[self._array]
+                return self._cache[self._array]
             except KeyError:
-                return False
-            else:
-                return True
+                return None
+
+    @property
+    def ismaterialized(self):
+        if self._cache is not None and isinstance(self._array, (VirtualArray.TransientKey, awkward0.util.string)) and hasattr(self._cache, "__contains__"):
+            return self._array in self._cache
         else:
-            return self._array is not None
+            return self._held() is not None
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
-- 
2.43.0


From 234b9b1283745d7d249b6bcfac531c00ceeb7745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 22/88] fix: a slice of a ChunkedArray does not load chunks it
 takes nothing from

---
 awkward0/array/chunked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index d05f5c7..bd42dc8 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -431,7 +431,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         skip = (-1 - local_start) % -step
 
                 # add a sliced chunk
-                chunk = self._chunks[chunkid][(slice(local_start, local_stop, step),)]
+                local = slice(local_start, local_stop, step)
+                if len(range(*local.indices(self._chunksizes[chunkid]))) == 0:
+                    continue        # nothing from this chunk: don't load it
+                chunk = self._chunks[chunkid][(local,)]
                 if len(chunk) > 0:
                     chunk = chunk[(slice(None),) + tail]
                     if len(chunk) > 0:
-- 
2.43.0


From 9b351b336077665330097167171dd82f4ce57b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 23/88] fix: comparing types looks at both sides of a union and
 at every use of a shared part

---
 awkward0/type.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 57c1323..36cbdf6 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -331,10 +331,10 @@ class ArrayType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True     # already being compared
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, ArrayType) and self._takes == other._takes:
                 return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
             else:
@@ -424,10 +424,10 @@ class TableType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True     # already being compared
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
                 for n in self._fields:
                     if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
@@ -509,16 +509,19 @@ class UnionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True     # already being compared
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
-                        return False
-                else:
-                    return True    # nothing failed in the loop over possibilities
+                def match(mine, theirs):
+                    if len(mine) == 0:
+                        return True
+                    for i, y in enumerate(theirs):
+                        if self._eq2(mine[0], y, set(seen), ignoremask=ignoremask) and match(mine[1:], theirs[:i] + theirs[i + 1:]):
+                            return True
+                    return False    # the first possibility has no counterpart
+                return match(self._possibilities, other._possibilities)
             else:
                 return False
 
@@ -591,12 +594,12 @@ class OptionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True     # already being compared
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
-                if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
+                if self._eq2(self._type, other._type, set(seen), ignoremask=ignoremask):
                     return True
             if ignoremask:    # applied asymmetrically; only the left can ignore mask
                 return self._eq2(self._type, other, seen, ignoremask=ignoremask)
-- 
2.43.0


From 7b36a2e879dc0bb788c64f64b538bbab7cd57481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 24/88] fix: a Numpy dtype is not the same type as an array of
 it

---
 awkward0/type.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/type.py b/awkward0/type.py
index 36cbdf6..86e0ba4 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -199,6 +199,8 @@ class Type(object):
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(two, Type):
+            return False        # Numpy would compare its dtype with two.dtype
         elif one == two:
             return True
         elif callable(one) and callable(two):
-- 
2.43.0


From 4f592996d680b2a1cddf5722127e22f9a33799be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 25/88] fix: unsorted fancy index of a ChunkedArray of lists,
 strings, tables or masked values, fancy index with a tail

---
 awkward0/array/chunked.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index bd42dc8..5f6a512 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -456,19 +456,20 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
                 diff = (chunkid[1:] - chunkid[:-1])
-                if (diff >= 0).all():
+                if (diff >= 0).all() or not self._isflatnumpy():
                     diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
                     diff2[0] = 1
                     diff2[1:] = diff
-                    mask = (diff2 > 0)
+                    mask = (diff2 != 0)
                     offsets = list(self.numpy.nonzero(mask)[0]) + [len(chunkid)]
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
                         localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
+                        chunk = self._chunks[cid][localindex]
+                        chunks.append(chunk if tail == () else chunk[(slice(None),) + tail])
                     return self.copy(chunks=chunks)
 
-                elif self._util_isnumpy(self.type):
+                else:
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
@@ -482,12 +483,6 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     else:
                         return out[(slice(None),) + tail]
 
-                elif tail == ():
-                    return self.IndexedArray(head, self)
-
-                else:
-                    raise NotImplementedError
-
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
@@ -505,6 +500,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _isflatnumpy(self):
+        tpe = self.type.to
+        while isinstance(tpe, awkward0.type.ArrayType) and tpe.takes != self.numpy.inf:
+            tpe = tpe.to
+        return isinstance(tpe, self.numpy.dtype)
+
     def _aligned(self, what):
         self.knowchunksizes()
         what.knowchunksizes()
-- 
2.43.0


From 570f616a9e0701d7ae0fef6d10fb1a4f501bdb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:42 +0000
Subject: [PATCH 26/88] fix: argmin and argmax of a ChunkedArray with empty
 chunks

---
 awkward0/array/chunked.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 5f6a512..e6a9c25 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -728,19 +728,21 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            self.knowchunksizes()
+            chunkids = [i for i, count in enumerate(self._chunksizes) if count > 0]
+            indexes = [self._chunks[i][:self._chunksizes[i]].argmin() for i in chunkids]
+            which = self.numpy.argmin([self._chunks[i][j] for i, j in zip(chunkids, indexes)])
+            return self.offsets[chunkids[which]] + indexes[which]
 
     def argmax(self):
         if self._util_hasjagged(self):
             return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            self.knowchunksizes()
+            chunkids = [i for i, count in enumerate(self._chunksizes) if count > 0]
+            indexes = [self._chunks[i][:self._chunksizes[i]].argmax() for i in chunkids]
+            which = self.numpy.argmax([self._chunks[i][j] for i, j in zip(chunkids, indexes)])
+            return self.offsets[chunkids[which]] + indexes[which]
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
-- 
2.43.0


From bd6b4a1d4ad2b616d1a5d8b2b6b32557e4de5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 27/88] fix: count and count_nonzero of a ChunkedArray add up
 those of its chunks

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index e6a9c25..5e9852a 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -714,7 +714,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if out is None:
                     out = this
                 else:
-                    out = ufunc(out, this)
+                    out = (self.numpy.add if ufunc is None or ufunc is self.numpy.count_nonzero else ufunc)(out, this)
 
         if out is None:
             if dtype is None:
-- 
2.43.0


From 7a1a53c456c57c726cff4138f5b2a5fd59611fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:55 +0000
Subject: [PATCH 28/88] fix: a mask that selects nothing keeps the type of a
 ChunkedArray

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 5e9852a..b7e510d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -495,6 +495,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         if len(x) > 0:
                             chunks.append(x)
 
+                if len(chunks) == 0 and len(self._chunks) > 0:
+                    chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that masked.type == self.type
+
                 return self.copy(chunks=chunks)
 
             else:
-- 
2.43.0


From 9cd7e6b705ae54b70b2b1bc8e21f1cb2e53c4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 29/88] fix: columns of an empty slice of a Table are empty

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 3567b31..b3b71d9 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -460,6 +460,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0, 0)      # start may be -1, which is not a position
             stop = start + step*length
             if stop < 0:
                 stop = None
-- 
2.43.0


From 80171b18b49b39949c73e3cc84e909c1048cb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:44 +0000
Subject: [PATCH 30/88] fix: a fancy index of a Table neither changes nor
 shares the index array it is given

---
 awkward0/array/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index b3b71d9..4d37af8 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -527,6 +527,7 @@ class Table(awkward0.array.base.AwkwardArray):
             head = self._util_toarray(head, self.INDEXTYPE)
             if self._util_isintegertype(head.dtype.type):
                 length = self._length()
+                head = self.numpy.array(head)   # the caller keeps (and may change) its own
                 negative = (head < 0)
                 if negative.any():
                     head[negative] += length
-- 
2.43.0


From 3389c22089e71cd0cc40b5419af535405532c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 31/88] fix: zeros_like and ones_like of a view of a Table have
 the rows of the view

---
 awkward0/array/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 4d37af8..6afc039 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -354,6 +354,8 @@ class Table(awkward0.array.base.AwkwardArray):
     def zeros_like(self, **overrides):
         out = self.empty_like(**overrides)
         for n, x in self._contents.items():
+            if self._view is not None:
+                x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.zeros_like(x)
             else:
@@ -363,6 +365,8 @@ class Table(awkward0.array.base.AwkwardArray):
     def ones_like(self, **overrides):
         out = self.empty_like(**overrides)
         for n, x in self._contents.items():
+            if self._view is not None:
+                x = x[self._index()]
             if isinstance(x, self.numpy.ndarray):
                 out[n] = self.numpy.ones_like(x)
             else:
-- 
2.43.0


From 75d5e135794657cd9ce22f88531e73e8a75e8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 32/88] fix: a ChunkedArray of fixed-size items as a Numpy
 array

---
 awkward0/array/chunked.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index b7e510d..64fb110 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -299,7 +299,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __array__(self, *args, **kwargs):
         self._checktonumpy()
 
-        if isinstance(self.type.to, self.numpy.dtype):
+        item = self.type.to
+        while isinstance(item, awkward0.type.ArrayType) and item.takes != self.numpy.inf:
+            item = item.to          # fixed-size items, as in a Numpy array of more than one dimension
+
+        if isinstance(item, self.numpy.dtype):
             if len(self) == 0:
                 return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
             else:
-- 
2.43.0


From 1be90ba48215eea612006a1aeb9f1c9fb079ae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:46 +0000
Subject: [PATCH 33/88] fix: the type of an AppendableArray of more than one
 dimension

---
 awkward0/array/chunked.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 64fb110..bbcad61 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -957,7 +957,10 @@ class AppendableArray(ChunkedArray):
         return self.JaggedArray.counts2offsets(self._chunksizes)
 
     def _gettype(self, seen):
-        return self._dtype
+        if len(self._chunkshape) == 1:
+            return self._dtype
+        else:
+            return awkward0.type.ArrayType(*(self._chunkshape[1:] + (self._dtype,)))
 
     def _util_layout(self, position, seen, lookup):
         positions = []
-- 
2.43.0


From 4fe3ac1557ffa73310832bc3511d5481af2ea1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 34/88] fix: iterating over an AppendableArray while it grows
 does not skip elements

---
 awkward0/array/chunked.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index bbcad61..390ce52 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -974,6 +974,17 @@ class AppendableArray(ChunkedArray):
     def __len__(self):
         return sum(self._chunksizes)
 
+    def __iter__(self, checkiter=True):
+        if checkiter:
+            self._checkiter()
+        i = 0
+        while i < len(self._chunks):
+            j = 0
+            while j < self._chunksizes[i]:      # the last chunk may be growing
+                yield self._chunks[i][j]
+                j += 1
+            i += 1
+
     def _valid(self):
         if self.check_whole_valid:
             pass
-- 
2.43.0


From bd9ba53b1056dca700d602b5478777b37304eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 35/88] fix: a Table selected by an index array reads back when
 its view refers to parts of its columns

---
 awkward0/array/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 6afc039..35f98d5 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -375,6 +375,9 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def __awkward_serialize__(self, serializer):
         self._valid()
+        if isinstance(self._view, self.numpy.ndarray):
+            view = serializer(self._view, "Table.view")     # first, because it is read first
+
         out = serializer.encode_call(
             ["awkward0", "Table", "frompairs"],
             {"pairs": [
@@ -398,7 +401,7 @@ class Table(awkward0.array.base.AwkwardArray):
         elif isinstance(self._view, self.numpy.ndarray):
             out = serializer.encode_call(
                 ["awkward0", "Table", "fromview"],
-                serializer(self._view, "Table.view"),
+                view,
                 out
             )
 
-- 
2.43.0


From 343fc05fc6954c554b5f644ba0a548ff5f48b5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:30 +0000
Subject: [PATCH 36/88] fix: an edit of several columns of a jagged, masked or
 indexed array that fails changes none of them

---
 awkward0/array/base.py    | 18 ++++--------------
 awkward0/array/indexed.py |  6 ++++--
 awkward0/array/jagged.py  |  3 ++-
 3 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index e4ba063..3fa35ba 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -726,25 +726,15 @@ class AwkwardArrayWithContent(AwkwardArray):
     """
 
     def __setitem__(self, where, what):
-        if isinstance(where, awkward0.util.string):
-            self._content[where] = what
-
-        elif self._util_isstringslice(where):
-            what = what.unzip()
-            if len(where) != len(what):
-                raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for x, y in zip(where, what):
-                self._content[x] = y
+        if isinstance(where, awkward0.util.string) or self._util_isstringslice(where):
+            self._content[where] = what         # all of the columns or none
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
 
     def __delitem__(self, where):
-        if isinstance(where, awkward0.util.string):
-            del self._content[where]
-        elif self._util_isstringslice(where):
-            for x in where:
-                del self._content[x]
+        if isinstance(where, awkward0.util.string) or self._util_isstringslice(where):
+            del self._content[where]            # all of the columns or none
         else:
             raise TypeError("invalid index for removing column from Table: {0}".format(where))
 
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index ae50e69..2f70ea5 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -177,8 +177,9 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            what = [self._invert(y) for y in what]
             for x, y in zip(where, what):
-                self._content[x] = self._invert(y)
+                self._content[x] = y
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
@@ -685,8 +686,9 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            what = [self._invert(y) for y in what]
             for x, y in zip(where, what):
-                self._content[x] = self._invert(y)
+                self._content[x] = y
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 773b0dd..839a3d9 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -795,8 +795,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
+            what = [self.tojagged(y)._content for y in what]
             for x, y in zip(where, what):
-                self._content[x] = self.tojagged(y)._content
+                self._content[x] = y
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
-- 
2.43.0


From ffd48815ecccbc7f51fb02009007c2498de5a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 37/88] fix: a column assigned to a UnionArray goes to the rows
 it belongs to; all contents or none

---
 awkward0/array/union.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 2489801..32f3353 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -327,35 +327,34 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("array to assign does not have the same starting shape as tags")
 
         if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what)
-
+            pairs = [(where, what)]
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y)
-
+            pairs = list(zip(where, what))
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
 
-    def __delitem__(self, where):
-        if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                del self._contents[tag][where]
-
-        elif self._util_isstringslice(where):
-            for tag in self.numpy.unique(self._tags):
-                for x in where:
-                    del self._contents[tag][x]
+        contents = list(self._contents)
+        for tag in self.numpy.unique(self._tags):
+            mask = (self._tags == tag)
+            inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][mask])
+            contents[tag] = self._util_editable(contents[tag])
+            for x, y in pairs:
+                contents[tag][x] = self.IndexedArray(inverseindex, y[mask])
+        self._contents = contents
 
-        else:
+    def __delitem__(self, where):
+        if not isinstance(where, awkward0.util.string) and not self._util_isstringslice(where):
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
 
+        contents = list(self._contents)
+        for tag in self.numpy.unique(self._tags):
+            contents[tag] = self._util_editable(contents[tag])
+            del contents[tag][where]
+        self._contents = contents
+
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
-- 
2.43.0


From 8029b310c87b9cfc5d3d98661b28891bf7341b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:16 +0000
Subject: [PATCH 38/88] fix: an archive saved with another schemasuffix lists
 its arrays

---
 awkward0/persist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..d6cc217 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -736,13 +736,13 @@ class Load(Mapping):
 
     def __iter__(self):
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
-                yield n[:-5]
+            if n.endswith(self.schemasuffix):
+                yield n[:len(n) - len(self.schemasuffix)]
 
     def __len__(self):
         count = 0
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
+            if n.endswith(self.schemasuffix):
                 count += 1
         return count
 
-- 
2.43.0


From 12c8960fb8457c1ac3fc78b426758a365763086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:34 +0000
Subject: [PATCH 39/88] fix: a (compress, decompress) pair is a compression
 rule, as documented

---
 awkward0/persist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index d6cc217..e1ede9b 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -462,7 +462,7 @@ class BlobSerializer(Serializer):
             comp = []
         elif comp is True:
             comp = [{"minsize": 0, "types": object, "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}]
-        elif not isinstance(comp, (list, tuple)):
+        elif not isinstance(comp, (list, tuple)) or (len(comp) == 2 and callable(comp[0]) and isinstance(comp[1], tuple)):
             comp = [comp]
 
         return list(map(cls.CompressPolicy.parse, comp))
-- 
2.43.0


From 9eda5230ccd8b70e43b0e1edba4ba0faafe7e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:45 +0000
Subject: [PATCH 40/88] fix: columns added to or removed from a VirtualArray
 are persisted with it, as documented

---
 awkward0/array/virtual.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 25b964c..e1ae002 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -44,6 +44,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         self._delitem = None
         self._array = None if cache is None else self.key
 
+    @classmethod
+    def fromedits(cls, virtual, delitem, setitem):
+        virtual._delitem = list(delitem)
+        virtual._setitem = OrderedDict(setitem)
+        virtual._array = None if virtual._cache is None else virtual.key
+        return virtual
+
     def copy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         # FIXME: arguments through **kwargs because undef is different from None (None has meaning for some of them)
         out = self.__class__.__new__(self.__class__)
@@ -143,6 +150,16 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 others["type"]["whitelistable"] = True
             if others:
                 out["kwargs"] = others
+            if self._setitem is not None or self._delitem is not None:
+                out = serializer.encode_call(
+                    ["awkward0", "VirtualArray", "fromedits"],
+                    out,
+                    {"json": [] if self._delitem is None else list(self._delitem)},
+                    {"pairs": [] if self._setitem is None else [
+                        [n, serializer(x, "VirtualArray.setitem")]
+                        for n, x in self._setitem.items()
+                    ]}
+                )
         else:
             out = serializer(self.array, "VirtualArray.array")
             out.pop("id")
-- 
2.43.0


From ebbdbe6be23ed6af4bd495870017a74b38ce1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:45 +0000
Subject: [PATCH 41/88] fix: a lazy array of strings with a declared type can
 be read back with the default whitelist

---
 awkward0/persist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index e1ede9b..16d9e3b 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -28,6 +28,8 @@ compression = [
     ]
 
 whitelist = [
+        ["builtins", "str"],
+        ["builtins", "bytes"],
         ["numpy", "frombuffer"],
         ["zlib", "decompress"],
         ["lzma", "decompress"],
-- 
2.43.0


From a55f45ce93cd71b2a8ca69e05cb4ed4d0fe3eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:08 +0000
Subject: [PATCH 42/88] fix: what is stored of a Numpy array is its bytes,
 whatever its byte order and item type

---
 awkward0/persist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 16d9e3b..c8ceb07 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -486,13 +486,13 @@ class BlobSerializer(Serializer):
         else:
             dtype = obj.dtype
 
-        buf = None
+        raw = obj.ravel().view(numpy.uint8)     # only the bytes: byte order and item type are in the schema
         for policy in self._parse_compression(self.compression):
             if policy.test(obj, context):
-                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(obj.ravel()), ref=obj))
+                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(raw), ref=obj))
                 break
         else:
-            buf = self._put_raw(obj.ravel(), ref=obj)
+            buf = self._put_raw(raw, ref=obj)
 
         return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
 
-- 
2.43.0


From 3461bf9c2c153c9e674d2d73d1ca14240797a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:11 +0000
Subject: [PATCH 43/88] fix: a VirtualArray that does not persist itself can
 share its array with other parts of what is stored

---
 awkward0/array/virtual.py | 5 +++--
 awkward0/persist.py       | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index e1ae002..001fb69 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -161,8 +161,9 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     ]}
                 )
         else:
-            out = serializer(self.array, "VirtualArray.array")
-            out.pop("id")
+            array = self.array
+            out = serializer(array, "VirtualArray.array")
+            serializer.seen.alias(self, array)
 
         return out
 
diff --git a/awkward0/persist.py b/awkward0/persist.py
index c8ceb07..dcf7696 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -272,6 +272,10 @@ class ObjRef(object):
         del self._r2o[self._i2r[id(obj)]]
         del self._i2r[id(obj)]
 
+    def alias(self, obj, other):
+        # obj is stored as other, which is already known
+        self._i2r[id(obj)] = self._i2r[id(other)]
+
     def get(self, obj, default=None):
         return self[obj] if obj in self else default
 
-- 
2.43.0


From 11c74aefc6cd78d666fa76710415c9e8fa767e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 44/88] fix: an interrupted overwrite of a stored array does
 not read as a mixture of the old and the new one

---
 awkward0/persist.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index dcf7696..f89e419 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -292,8 +292,10 @@ class Serializer(object):
         self.prefix = prefix
         self.schemasuffix = schemasuffix
         self.seen = ObjRef(idgen=count())
+        self._replacing = None
 
     def store(self, name, obj):
+        self._replacing = name + self.schemasuffix
         schema = {"awkward0": awkward0.version.__version__, "schema": self(obj)}
         if self.prefix != "":
             schema["prefix"] = self.prefix
@@ -303,6 +305,16 @@ class Serializer(object):
         self.storage[name + self.schemasuffix] = self._encode_schema(schema)
         return schema
 
+    def _write(self, where, what):
+        # an array that is being overwritten must not be readable until all of its new parts are there
+        replacing, self._replacing = self._replacing, None
+        if replacing is not None and hasattr(self.storage, "__delitem__"):
+            try:
+                del self.storage[replacing]
+            except KeyError:
+                pass
+        self.storage[where] = what
+
     def load(self, *args, **kwargs):
         return deserialize(*args, storage=self.storage, seen=self.seen, **kwargs)
 
@@ -372,7 +384,7 @@ class Serializer(object):
 
     def _encode_numpy(self, obj, context):
         key = str(self.seen[obj]) + self.suffix
-        self.storage[self.prefix + key] = obj
+        self._write(self.prefix + key, obj)
         return {"read": key}
 
     def _encode_schema(self, schema):
@@ -481,7 +493,7 @@ class BlobSerializer(Serializer):
         if ref is None:
             ref = data
         key = str(self.seen[ref]) + self.suffix
-        self.storage[self.prefix + key] = data
+        self._write(self.prefix + key, data)
         return dict(read=key)
 
     def _encode_numpy(self, obj, context):
-- 
2.43.0


From be31c5d826344a4d331b54778407cb354ffa0ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 45/88] fix: a failed save leaves the archive it was adding to
 as it was

---
 awkward0/persist.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index f89e419..fb1b387 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -715,15 +715,52 @@ def save(file, array, name=None, mode="a", **options):
                 what = what.tostring()
             self.f.writestr(where, what, compress_type=zipfile.ZIP_STORED)
 
-    with zipfile.ZipFile(file, mode=mode, compression=zipfile.ZIP_STORED) as f:
+    created = isinstance(file, str) and not os.path.exists(file)
+    f, before = None, None
+    try:
+        f = zipfile.ZipFile(file, mode=mode, compression=zipfile.ZIP_STORED)
+
         namelist = f.namelist()
         for name in arraynames:
             if any(n.startswith(name) for n in namelist):
                 raise KeyError("cannot add {0} to zipfile because the following already exist: {1}".format(repr(name), ", ".join(repr(n) for n in namelist if n.startswith(name))))
 
+        if mode == "a":
+            # everything that adding to the archive overwrites
+            f.fp.seek(f.start_dir)
+            before = f.start_dir, f.fp.read()
+            f.fp.seek(f.start_dir)
+
         wrapped = Wrap(f)
         for name, array in arrays.items():
             serialize(array, wrapped, name=name, **options)
+        f.close()
+
+    except:
+        _abandon(f, file, created, before)
+        raise
+
+def _abandon(zf, file, created, before):
+    # saving failed: leave the file as it was
+    try:
+        if zf is not None:
+            zf.close()
+    except Exception:
+        pass
+
+    if created:
+        if os.path.exists(file):
+            os.remove(file)
+
+    elif before is not None:
+        fp = open(file, "r+b") if isinstance(file, str) else file
+        try:
+            fp.seek(before[0])
+            fp.write(before[1])
+            fp.truncate()
+        finally:
+            if fp is not file:
+                fp.close()
 
 def load(file, **options):
     f = Load(file, **options)
-- 
2.43.0


From 9cafc49998999b6097322a468da72d58e8d80a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 46/88] fix: setting or deleting an array in an HDF5 group
 happens as a whole or not at all

---
 awkward0/persist.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index fb1b387..f5eab2e 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -824,15 +824,16 @@ class hdf5(MutableMapping):
         self.options["delimiter"] = "/"
         self.options["schemasuffix"] = "/schema.json"
 
-        class Wrap(object):
-            def __init__(self):
-                self.g = group
-            def __getitem__(self, where):
-                return self.g[where][()]
-            def __setitem__(self, where, what):
-                self.g[where] = numpy.frombuffer(what, dtype=numpy.uint8)
-
-        self._group = Wrap()
+        self._group = self._Wrap(group)
+
+    class _Wrap(object):
+        def __init__(self, group, prefix=""):
+            self.g = group
+            self.prefix = prefix
+        def __getitem__(self, where):
+            return self.g[where][()]
+        def __setitem__(self, where, what):
+            self.g[where[len(self.prefix):]] = numpy.frombuffer(what, dtype=numpy.uint8)
 
     def __getitem__(self, where):
         return deserialize(self._group, name=where + self.options["schemasuffix"], whitelist=self.options["whitelist"], cache=self.options["cache"])
@@ -845,12 +846,16 @@ class hdf5(MutableMapping):
             del options["whitelist"]
         if "cache" in options:
             del options["cache"]
-        self._group.g.create_group(where)
-        serialize(what, self._group, name=where, **options)
+        if where in self._group.g:
+            raise ValueError("cannot set {0} in HDF5 group because that name already exists".format(repr(where)))
+        # the new group gets its name when it is complete: an interrupted assignment leaves nothing behind
+        new = self._group.g.create_group(None)
+        serialize(what, self._Wrap(new, where + "/"), name=where, **options)
+        self._group.g[where] = new
 
     def __delitem__(self, where):
-        for subname in keys(self._group, name=where + self.options["schemasuffix"]):
-            del self._group.g[subname]
+        if where + self.options["schemasuffix"] not in self._group.g:
+            raise KeyError(where)
         del self._group.g[where]
 
     def __iter__(self):
-- 
2.43.0


From 6e8820696c9e7af5eb38739314428fda30ca1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 47/88] fix: a failure to open or to read an archive that is
 added to does not start a new one in its place

---
 awkward0/persist.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index f5eab2e..a207784 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -716,9 +716,11 @@ def save(file, array, name=None, mode="a", **options):
             self.f.writestr(where, what, compress_type=zipfile.ZIP_STORED)
 
     created = isinstance(file, str) and not os.path.exists(file)
-    f, before = None, None
+    f, fp, before = None, None, None
     try:
-        f = zipfile.ZipFile(file, mode=mode, compression=zipfile.ZIP_STORED)
+        if mode == "a" and isinstance(file, str) and not created:
+            fp = open(file, "r+b")      # zipfile would start a new file if it can't open this one
+        f = zipfile.ZipFile(file if fp is None else fp, mode=mode, compression=zipfile.ZIP_STORED)
 
         namelist = f.namelist()
         for name in arraynames:
@@ -729,24 +731,30 @@ def save(file, array, name=None, mode="a", **options):
             # everything that adding to the archive overwrites
             f.fp.seek(f.start_dir)
             before = f.start_dir, f.fp.read()
+            if not namelist and before[1] == b"" and zipfile.is_zipfile(f.fp):
+                # zipfile takes a file that it failed to read for one that is not an archive
+                raise IOError("cannot read the zipfile to be added to")
             f.fp.seek(f.start_dir)
 
         wrapped = Wrap(f)
         for name, array in arrays.items():
             serialize(array, wrapped, name=name, **options)
         f.close()
+        if fp is not None:
+            fp.close()
 
     except:
-        _abandon(f, file, created, before)
+        _abandon((f, fp), file, created, before)
         raise
 
-def _abandon(zf, file, created, before):
+def _abandon(opened, file, created, before):
     # saving failed: leave the file as it was
-    try:
-        if zf is not None:
-            zf.close()
-    except Exception:
-        pass
+    for f in opened:
+        try:
+            if f is not None:
+                f.close()
+        except Exception:
+            pass
 
     if created:
         if os.path.exists(file):
-- 
2.43.0


From 0991cd5c75b9758a92b75615db11badb27087502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 48/88] fix: arrays of items without any bytes read back

---
 awkward0/persist.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index a207784..d6aefaa 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -62,6 +62,10 @@ def frompython(obj):
 def topython(string):
     return pickle.loads(base64.b64decode(string.encode("ascii")))
 
+def zerosized(dtype, count):
+    # items without any bytes, which can't be read from a buffer
+    return numpy.empty(count, dtype=dtype)
+
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
@@ -502,6 +506,9 @@ class BlobSerializer(Serializer):
         else:
             dtype = obj.dtype
 
+        if dtype.itemsize == 0:
+            return self.encode_call(["awkward0.persist", "zerosized"], self(dtype), self(obj.shape[0]))
+
         raw = obj.ravel().view(numpy.uint8)     # only the bytes: byte order and item type are in the schema
         for policy in self._parse_compression(self.compression):
             if policy.test(obj, context):
-- 
2.43.0


From 8f906462d0740797e6ceabb1fee3c1d2685d193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 49/88] fix: a save that fails while reading the end of a file
 that is no archive yet leaves it as it was

---
 awkward0/persist.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index d6aefaa..ea57313 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -736,6 +736,9 @@ def save(file, array, name=None, mode="a", **options):
 
         if mode == "a":
             # everything that adding to the archive overwrites
+            f.fp.seek(0, 2)
+            if f.fp.tell() == f.start_dir:
+                before = f.start_dir, b""
             f.fp.seek(f.start_dir)
             before = f.start_dir, f.fp.read()
             if not namelist and before[1] == b"" and zipfile.is_zipfile(f.fp):
-- 
2.43.0


From 75b970b2304e66e95103e8005ddb4556bf28aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 50/88] fix: scalar datasets, named types and dangling links
 next to arrays in an HDF5 group do not break listing them

---
 awkward0/persist.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index ea57313..187a272 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -871,22 +871,25 @@ class hdf5(MutableMapping):
         serialize(what, self._Wrap(new, where + "/"), name=where, **options)
         self._group.g[where] = new
 
+    def _isarray(self, where):
+        # what else is in the group may be anything: datasets, named types, links to nowhere
+        group = self._group.g.get(where)
+        return hasattr(group, "keys") and self.options["schemasuffix"].split("/")[-1] in group
+
     def __delitem__(self, where):
-        if where + self.options["schemasuffix"] not in self._group.g:
+        if not self._isarray(where):
             raise KeyError(where)
         del self._group.g[where]
 
     def __iter__(self):
-        schemaname = self.options["schemasuffix"].split("/")[-1]
         for subname in self._group.g:
-            if schemaname in self._group.g[subname]:
+            if self._isarray(subname):
                 yield subname
 
     def __len__(self):
-        schemaname = self.options["schemasuffix"].split("/")[-1]
         count = 0
         for subname in self._group.g:
-            if schemaname in self._group.g[subname]:
+            if self._isarray(subname):
                 count += 1
         return count
 
-- 
2.43.0


From 1ba38e6880fd340389412d7c1a588e405616b00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 51/88] fix: the default whitelist allowed everything in
 awkward0.persist, including unpickling and saving

---
 README.rst          | 3 ++-
 awkward0/persist.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/README.rst b/README.rst
index e077a06..e212f4f 100644
--- a/README.rst
+++ b/README.rst
@@ -3193,7 +3193,8 @@ Using a mini-language as metadata gives us great capacity for backward and forwa
     #  ['awkward0', 'Table'],
     #  ['awkward0', 'numpy', 'frombuffer'],
     #  ['awkward0.util', 'frombuffer'],
-    #  ['awkward0.persist'],
+    #  ['awkward0.persist', 'json2type'],
+    #  ['awkward0.persist', 'zerosized'],
     #  ['awkward0.arrow', '_ParquetFile', 'fromjson'],
     #  ['uproot_methods.classes.*'],
     #  ['uproot_methods.profiles.*'],
diff --git a/awkward0/persist.py b/awkward0/persist.py
index 187a272..aa2616c 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -39,13 +39,15 @@ whitelist = [
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
         ["awkward0.util", "frombuffer"],
-        ["awkward0.persist"],
+        ["awkward0.persist", "json2type"],
+        ["awkward0.persist", "zerosized"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
         ["awkward", "*Array"],
         ["awkward", "Table"],
         ["awkward", "numpy", "frombuffer"],
         ["awkward.util", "frombuffer"],
-        ["awkward.persist"],
+        ["awkward.persist", "json2type"],
+        ["awkward.persist", "zerosized"],
         ["awkward.arrow", "_ParquetFile", "fromjson"],
         ["uproot3_methods.classes.*"],
         ["uproot3_methods.profiles.*"],
-- 
2.43.0


From 505e095b9249cd27778a8846c57c3070b9d6cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 52/88] fix: a function's description that is shorter than the
 whitelist's, or leads through double underscores, is not in the whitelist

---
 awkward0/persist.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index aa2616c..5867320 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -68,13 +68,19 @@ def zerosized(dtype, count):
     # items without any bytes, which can't be read from a buffer
     return numpy.empty(count, dtype=dtype)
 
+def _whitelisted(obj, white):
+    if len(white) == 1 and white[0] == "*":
+        return len(obj) > 0
+    if len(obj) < len(white) or not all(fnmatch.fnmatchcase(n, p) for n, p in zip(obj, white)):
+        return False
+    # everything in an allowed object is allowed, but double underscores lead out of it ("__globals__", "__builtins__"),
+    # so these have to be named explicitly
+    return not any(n.startswith("__") and not p.startswith("__") for n, p in zip(obj[1:], list(white[1:]) + ["*"]*len(obj)))
+
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
-        for n, p in zip(obj, white):
-            if not fnmatch.fnmatchcase(n, p):
-                break
-        else:
+        if _whitelisted(obj, [white] if isinstance(white, str) else white):
             if obj[0] == "awkward0":
                 obj = [awkwardlib] + obj[1:]
             elif obj[0] == "awkward":
-- 
2.43.0


From 2a5c47d8e3929e7ecb9e7238f176440a22da7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 53/88] fix: the whitelist allowed what is reached through
 attributes of allowed classes (numpy.uint8.tofile)

---
 awkward0/persist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 5867320..88f3b60 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -93,6 +93,8 @@ def spec2function(obj, whitelist=whitelist):
             if genname[:1] == ["numpy"]:
                 gen, genname = getattr(gen, genname[0]), genname[1:]
             while len(genname) > 0:
+                if len(obj) - len(genname) >= len(white) and list(white) != ["*"] and not isinstance(gen, (type, types.ModuleType)):
+                    raise TypeError("items of a function description that the whitelist doesn't name must be in a class or module")
                 gen, genname = getattr(gen, genname[0]), genname[1:]
                 if isinstance(gen, types.ModuleType):
                     raise TypeError("non-first items of a function description must not be a module")
-- 
2.43.0


From 2f3f922d30edcd66b284b50c254683cf347a48d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 54/88] fix: {"python": data} was unpickled with any function,
 whatever the whitelist

---
 awkward0/persist.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 88f3b60..d580872 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -5,6 +5,7 @@
 import base64
 import fnmatch
 import importlib
+import io
 import json
 import numbers
 import os
@@ -30,6 +31,12 @@ compression = [
 whitelist = [
         ["builtins", "str"],
         ["builtins", "bytes"],
+        ["builtins", "complex"],
+        ["builtins", "slice"],
+        ["builtins", "range"],
+        ["numpy", "dtype"],
+        ["numpy.core.multiarray", "scalar"],
+        ["numpy._core.multiarray", "scalar"],
         ["numpy", "frombuffer"],
         ["zlib", "decompress"],
         ["lzma", "decompress"],
@@ -61,8 +68,16 @@ whitelist = [
 def frompython(obj):
     return base64.b64encode(pickle.dumps(obj)).decode("ascii")
 
-def topython(string):
-    return pickle.loads(base64.b64decode(string.encode("ascii")))
+def topython(string, whitelist=None):
+    if whitelist is None or any(list(white) == ["*"] for white in whitelist):
+        return pickle.loads(base64.b64decode(string.encode("ascii")))
+
+    class Unpickler(pickle.Unpickler):
+        def find_class(self, module, name):
+            # unpickling calls functions like any other description
+            return spec2function([module] + name.split("."), whitelist=whitelist)
+
+    return Unpickler(io.BytesIO(base64.b64decode(string.encode("ascii")))).load()
 
 def zerosized(dtype, count):
     # items without any bytes, which can't be read from a buffer
@@ -602,7 +617,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                out = topython(schema["python"], whitelist=whitelist)
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
-- 
2.43.0


From 1135bdc2089edd6e39943305893da7c0d6031064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 55/88] fix: a description could override the whitelist of the
 types it declares

---
 awkward0/persist.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index d580872..5f5db6d 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -4,6 +4,7 @@
 
 import base64
 import fnmatch
+import functools
 import importlib
 import io
 import json
@@ -249,6 +250,9 @@ def json2type(obj, whitelist=whitelist):
 
     return awkward0.type._resolve(recurse(obj), {})
 
+def _json2type(trusted, obj, whitelist=None):
+    return json2type(obj, whitelist=trusted)
+
 def jsonable(obj):
     if obj is None:
         return obj
@@ -573,10 +577,17 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
     elif len(whitelist) > 0 and isinstance(whitelist[0], str):
         whitelist = [whitelist]
 
+    def function(spec):
+        gen = spec2function(spec, whitelist=whitelist)
+        if gen is json2type:
+            # not with a whitelist that comes from the description itself
+            return functools.partial(_json2type, whitelist)
+        return gen
+
     def unfill(schema):
         if isinstance(schema, dict):
             if "call" in schema and isinstance(schema["call"], list) and len(schema["call"]) > 0:
-                gen = spec2function(schema["call"], whitelist=whitelist)
+                gen = function(schema["call"])
                 args = [unfill(x) for x in schema.get("args", [])]
 
                 kwargs = {}
@@ -611,7 +622,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = json2dtype(schema["dtype"])
 
             elif "function" in schema:
-                out = spec2function(schema["function"], whitelist=whitelist)
+                out = function(schema["function"])
 
             elif "json" in schema:
                 out = schema["json"]
-- 
2.43.0


From a2caebb6a1c6d1e1e906526ed9cd13e106f560de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 56/88] fix: a whitelist that is a single string other than "*"
 allowed nothing

---
 awkward0/persist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 5f5db6d..f4995e7 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -96,7 +96,7 @@ def _whitelisted(obj, white):
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
-        if _whitelisted(obj, [white] if isinstance(white, str) else white):
+        if _whitelisted(obj, white):
             if obj[0] == "awkward0":
                 obj = [awkwardlib] + obj[1:]
             elif obj[0] == "awkward":
@@ -574,7 +574,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
 
     if isinstance(whitelist, str):
         whitelist = [whitelist]
-    elif len(whitelist) > 0 and isinstance(whitelist[0], str):
+    if len(whitelist) > 0 and isinstance(whitelist[0], str):
         whitelist = [whitelist]
 
     def function(spec):
-- 
2.43.0


From 6a2b78de91812147b0105ff5e1026668db0e6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 57/88] fix: refuse what numpy turns into a 0-dimensional
 object

---
 awkward0/array/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 3fa35ba..6a28276 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -395,7 +395,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 if len(value) == 0:
                     return cls.numpy.array(value, dtype=defaultdtype, copy=False)
                 else:
-                    return cls.numpy.array(value, copy=False)
+                    out = cls.numpy.array(value, copy=False)
+                    if out.shape == ():
+                        raise TypeError("{0} cannot be converted to an array".format(type(value)))
+                    return out
 
     @classmethod
     def _util_materialize(cls, inputs):
-- 
2.43.0


From 92ccdd74c62bee336476b1336b8ac50b721a0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 58/88] fix: a Table column from an iterator has its elements,
 not the iterator

---
 awkward0/array/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 35f98d5..f391afb 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -643,7 +643,10 @@ class Table(awkward0.array.base.AwkwardArray):
             try:
                 len(what)
             except TypeError:
-                what = self.numpy.full(len(self), what)
+                if isinstance(what, Iterable) and not isinstance(what, self.numpy.ndarray):
+                    what = list(what)
+                else:
+                    what = self.numpy.full(len(self), what)
         return self._util_toarray(what, self.DEFAULTTYPE)
 
     def __setitem__(self, where, what):
-- 
2.43.0


From f02b2a9063a8b19de81456c87d9f7085a297d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 59/88] fix: StringArray.fromiter(encoding=None) iterated twice
 over its argument

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index d966d75..8a95fca 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -430,7 +430,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromiter(cls, iterable, encoding="utf-8"):
         if encoding is None:
-            encoded = iterable
+            encoded = list(iterable)
         else:
             encoder = codecs.getencoder(encoding)
             encoded = [encoder(x)[0] for x in iterable]
-- 
2.43.0


From a03773d98e7d7e309b465f855f5238b16b185ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 60/88] fix: checking the chunksizes consumed an iterator of
 them

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 390ce52..4230f0c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -91,6 +91,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def chunksizes(self, value):
         if self.check_prop_valid:
             try:
+                value = list(value)
                 if not all(self._util_isinteger(x) and x >= 0 for x in value):
                     raise ValueError("chunksizes must contain only non-negative integers")
             except TypeError:
-- 
2.43.0


From d7b22ad609237af0d0baf642d9dd27fbe078bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 61/88] fix: reading Parquet files with records or dictionaries
 uses what current pyarrow calls their fields and values

---
 awkward0/arrow.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3a7d08b..898ca3e 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -25,7 +25,7 @@ def schema2type(schema):
 
     def recurse(tpe, nullable):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            out = recurse(tpe.dictionary.type, nullable)
+            out = recurse(tpe.value_type, nullable)
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
@@ -33,7 +33,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 x = awkward0.type.ArrayType(tpe[i].name, recurse(tpe[i].type, tpe[i].nullable))
                 if out is None:
                     out = x
@@ -53,7 +53,7 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 x = recurse(tpe[i].type, nullable)
                 if out is None:
                     out = x
@@ -256,7 +256,7 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 1) == 1
             mask = buffers.pop(0)
             pairs = []
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
@@ -296,7 +296,7 @@ def fromarrow(obj):
             assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 try:
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
@@ -321,7 +321,7 @@ def fromarrow(obj):
             tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
-            for i in range(tpe.num_children):
+            for i in range(tpe.num_fields):
                 try:
                     sublength = index[tags == i].max() + 1
                 except ValueError:
-- 
2.43.0


From 6dc4ecbdc890358f2fbf366a25d7bc6d46f936c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 62/88] fix: missing strings were written to Arrow as present
 and missing lists as lists of missing values

---
 awkward0/arrow.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 898ca3e..019e0c2 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -109,6 +109,10 @@ def schema2type(schema):
 def toarrow(obj):
     import pyarrow
 
+    def validity(mask):
+        # Arrow's bitmask of valid items from a boolean array of missing ones
+        return pyarrow.array(numpy.logical_not(mask)).buffers()[1]
+
     def recurse(obj, mask):
         if isinstance(obj, numpy.ndarray):
             return pyarrow.array(obj, mask=mask)
@@ -126,9 +130,13 @@ def toarrow(obj):
             return recurse(obj.dense, mask)
 
         elif isinstance(obj, awkward0.array.jagged.JaggedArray):
+            if mask is not None:
+                # lists that are missing have to be empty
+                obj = obj.copy(stops=numpy.where(mask, obj.starts, obj.stops[:len(obj.starts)]))
             obj = obj.compact()
             if mask is not None:
-                mask = obj.tojagged(mask).flatten()
+                content = recurse(obj.content, None)
+                return pyarrow.Array.from_buffers(pyarrow.list_(content.type), len(obj), [validity(mask), pyarrow.py_buffer(obj.offsets.astype(numpy.int32))], children=[content])
             arrow_type = pyarrow.ListArray
             # 64bit offsets not yet completely golden in arrow
             # if hasattr(pyarrow, 'LargeListArray') and obj.starts.itemsize > 4:
@@ -159,12 +167,12 @@ def toarrow(obj):
                 # if hasattr(pyarrow, 'LargeBinaryArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
-                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [None, offsets, content])
+                convert = lambda length, offsets, content, nulls: arrow_type.from_buffers(arrow_offset_type, length, [nulls, offsets, content])
             elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content)
+                convert = lambda length, offsets, content, nulls: arrow_type.from_buffers(length, offsets, content, nulls)
             else:
                 raise ValueError("only encoding=None or encoding='utf-8' can be converted to Arrow")
 
@@ -173,7 +181,7 @@ def toarrow(obj):
             if offsets.dtype != numpy.dtype(numpy.int32):
                 offsets = offsets.astype(numpy.int32)
 
-            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content))
+            return convert(len(offsets) - 1, pyarrow.py_buffer(offsets), pyarrow.py_buffer(obj.content), None if mask is None else validity(mask))
 
         elif isinstance(obj, awkward0.array.objects.ObjectArray):
             # throw away Python object interpretation, which Arrow can't handle while being multilingual
-- 
2.43.0


From 2c7d018bea97549028549a352620635de2b2e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:27 +0000
Subject: [PATCH 63/88] fix: toparquet left its file open if the first part
 could not be written

---
 awkward0/arrow.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 019e0c2..7d83bcc 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -483,9 +483,9 @@ def toparquet(where, obj, **options):
         if "schema" not in options:
             options["schema"] = arritem.schema
         writer = pyarrow.parquet.ParquetWriter(**options)
-        writer.write_table(arritem)
 
         try:
+            writer.write_table(arritem)
             while True:
                 try:
                     awkitem = next(obj)
@@ -500,8 +500,10 @@ def toparquet(where, obj, **options):
         arritem = convert(obj, None)
         options["schema"] = arritem.schema
         writer = pyarrow.parquet.ParquetWriter(**options)
-        writer.write_table(arritem)
-        writer.close()
+        try:
+            writer.write_table(arritem)
+        finally:
+            writer.close()
 
     else:
         try:
@@ -517,9 +519,9 @@ def toparquet(where, obj, **options):
         if "schema" not in options:
             options["schema"] = arritem.schema
         writer = pyarrow.parquet.ParquetWriter(**options)
-        writer.write_table(arritem)
 
         try:
+            writer.write_table(arritem)
             while True:
                 try:
                     awkitem = next(obj)
-- 
2.43.0


From 8eb701befc3b555e8dbd9680c22a9d5d7f331b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 64/88] fix: IndexedMaskedArray.count counted missing items

---
 awkward0/array/masked.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 27046a1..9715acc 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -885,10 +885,15 @@ class IndexedMaskedArray(MaskedArray):
                 content = self._content
             else:
                 content = self._content.astype(dtype)
+            if ufunc is None:
+                content = self.numpy.where(self.numpy.isnan(content), self.numpy.float32(self.numpy.nan), self.numpy.float32(0))
         else:
             content = self._content._prepare(ufunc, identity, dtype)
 
-        if identity == self.numpy.inf:
+        if ufunc is None:
+            identity = self.numpy.nan
+
+        elif identity == self.numpy.inf:
             if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
                 identity = True
             elif self._util_isintegertype(dtype.type):
-- 
2.43.0


From 60cb5fea570bcdf26668d659347c0b216ed577d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 65/88] fix: a sliced Table was written to Arrow and Parquet
 with its unsliced columns, and a masked one with an index in the wrong order

---
 awkward0/arrow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 7d83bcc..be2fa1b 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -188,7 +188,7 @@ def toarrow(obj):
             return recurse(obj.content, mask)
 
         elif isinstance(obj, awkward0.array.table.Table):
-            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in obj.contents.values()], list(obj.contents))
+            return pyarrow.StructArray.from_arrays([recurse(obj[n], mask) for n in obj.contents], list(obj.contents))
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
             contents = []
@@ -225,14 +225,14 @@ def toarrow(obj):
             content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
         else:
             content = obj.content[obj.mask]
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(content[n] if isinstance(content, awkward0.array.table.Table) else content, mask) for n in obj.content.contents], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
         mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj.content[n], mask) for n in obj.content.contents], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.table.Table):
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in obj.contents.values()], list(obj.contents))])
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(obj[n], None) for n in obj.contents], list(obj.contents))])
 
     else:
         return recurse(obj, None)
-- 
2.43.0


From 3d966ed87e6669c9b9b70227bebd81d96b950243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 66/88] fix: nothing of an IndexedArray over strings, records
 or lists was an array of another type, or raised

---
 awkward0/array/indexed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 2f70ea5..a48a782 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -156,10 +156,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
         head = self._index[head]
-        if len(head.shape) != 0 and len(head) == 0:
-            return self.numpy.empty(0, dtype=self._content.dtype)[tail]
-        else:
-            return self._content[(head,) + tail]
+        return self._content[(head,) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
-- 
2.43.0


From 9ea2ca37d645089f7e9e81cd8449bb93f98536b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 67/88] fix: converting a chunked array next to another reader
 counts each chunk once

---
 awkward0/array/chunked.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 4230f0c..c2cb376 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -799,8 +799,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         chunks = []
         chunksizes = []
         for i, chunk in enumerate(self._chunks):
-            if i >= len(self._chunksizes):
-                self._chunksizes.append(len(chunk))
+            self.knowchunksizes(i + 1)
             chunks.append(chunk.astype(dtype))
             chunksizes.append(self._chunksizes[i])
         return self.copy(chunks=chunks, chunksizes=chunksizes)
@@ -809,8 +808,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         chunks = []
         chunksizes = []
         for i, chunk in enumerate(self._chunks):
-            if i >= len(self._chunksizes):
-                self._chunksizes.append(len(chunk))
+            self.knowchunksizes(i + 1)
             chunks.append(self._util_fillna(chunk, value))
             chunksizes.append(self._chunksizes[i])
         return self.copy(chunks=chunks, chunksizes=chunksizes)
-- 
2.43.0


From 0f1b038ee1f7c76cb1765496998ebfc415f0f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 68/88] fix: a bit mask is never read beyond its elements

---
 awkward0/array/masked.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9715acc..cc851c8 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -518,7 +518,7 @@ class BitMaskedArray(MaskedArray):
             # maybe pad the length for reshape
             length = cls._ceildiv8(len(boolmask)) * 8
             if length != len(boolmask):
-                out = cls.numpy.empty(length, dtype=boolmask.dtype)
+                out = cls.numpy.zeros(length, dtype=boolmask.dtype)
                 out[:len(boolmask)] = boolmask
             else:
                 out = boolmask
@@ -621,7 +621,10 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
-            bytepos, bitmask = self._maskat(where)
+            index = where + len(self) if where < 0 else where
+            if not 0 <= index < len(self):
+                raise IndexError("index {0} is out of bounds for size {1}".format(where, len(self)))
+            bytepos, bitmask = self._maskat(index)
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
         elif isinstance(where, slice):
@@ -631,6 +634,8 @@ class BitMaskedArray(MaskedArray):
         else:
             where = self.numpy.array(where, copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
+                where = where.astype(self.INDEXTYPE)
+                where[where < 0] += len(self)
                 byteposes, bitmasks = self._maskat(where)
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
-- 
2.43.0


From 6721f266e488cdcf4bd1da890fe977a5c94e145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 69/88] fix: arithmetic on strings raises instead of reading
 object addresses as characters

---
 awkward0/array/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 8a95fca..2167f79 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -358,9 +358,12 @@ class StringMethods(object):
             else:
                 return self.numpy.logical_not(out)
 
-        else:
+        elif self._util_iscomparison(ufunc):
             return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
 
+        else:
+            raise TypeError("{0} is not defined for strings".format(ufunc.__name__))
+
 def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
-- 
2.43.0


From 5e9892a363e22d29448a1e6035e517132c3b3867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 70/88] fix: assigning to a SparseArray ends and puts values in
 their places

---
 awkward0/array/indexed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index a48a782..cfa140b 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -655,7 +655,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.numpy.bool_)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
@@ -667,13 +667,13 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
 
         test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, bool):
+        while not isinstance(test, (bool, self.numpy.bool_)):
             test = test.any()
 
         if test:
             raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
 
-        return IndexedArray(self._inverse, what)
+        return what[self._index]
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-- 
2.43.0


From 3100e7fd8dc69ab1551f3d4ea8f297b6d43d081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 71/88] fix: elements no row reaches are zero, not left over
 memory, after a broadcast assignment

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 839a3d9..dbabb3d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -866,7 +866,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
         elif isinstance(data, self.numpy.ndarray):
-            content = self.numpy.empty(len(self.parents), dtype=data.dtype)
+            content = self.numpy.zeros(len(self.parents), dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
                 content[:] = data
             else:
-- 
2.43.0


From 78d3b64e2b32ddd98dabab1d8123c7a4298d2db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 72/88] fix: the padding of a padded array is zero, not left
 over memory

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 6a28276..d5f190c 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -550,7 +550,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
         else:
             offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = cls.numpy.empty(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
+            content = cls.numpy.zeros(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
             content[:, :array.shape[1]] = array
             if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
                 mask = cls.numpy.ones(len(array), dtype=cls.MASKTYPE)
-- 
2.43.0


From 4c560e6cf3c4bc84d56db74e62f312bd6e55af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 73/88] fix: what is missing in an array built from an iterable
 is zero, not left over memory

---
 awkward0/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..43a50ba 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -334,7 +334,7 @@ class MaskedFillable(Fillable):
 
         if isinstance(self.content, (BoolFillable, NumberFillable)):
             compact = self.content.finalize(**options)
-            expanded = self.awkwardlib.numpy.empty(len(self), dtype=compact.dtype)
+            expanded = self.awkwardlib.numpy.zeros(len(self), dtype=compact.dtype)
             expanded[valid] = compact
 
             if maskedwhen:
-- 
2.43.0


From 70bf89286bc9e2f3953bc0c1adc86c900483db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 74/88] fix: stops longer than starts are only read as far as
 there are starts

---
 awkward0/array/jagged.py | 68 ++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index dbabb3d..5341e56 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -291,7 +291,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
@@ -355,11 +355,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -412,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
@@ -479,15 +479,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                nonempty = (self._starts != self.stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = self.stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
-                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
+                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.reshape(-1).max(), len(self._content)))
 
             self._isvalid = True
 
@@ -569,9 +569,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
+                    thyself._starts.shape = self._stops.shape
 
-                head = head._tojagged(thyself._starts, thyself._stops, copy=False)
+                head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
                 intheadsum = inthead.sum()
 
@@ -599,7 +599,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self.stops[head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
@@ -885,9 +885,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _tojagged(self, starts=None, stops=None, copy=True):
         if starts is None and stops is None:
             if copy:
-                starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self._stops)
+                starts, stops = self._util_deepcopy(self._starts), self._util_deepcopy(self.stops)
             else:
-                starts, stops = self._starts, self._stops
+                starts, stops = self._starts, self.stops
 
         elif stops is None:
             starts = self._util_toarray(starts, self.INDEXTYPE)
@@ -918,7 +918,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if not copy and starts is self._starts and stops is self._stops:
             return self
 
-        elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self._stops or self.numpy.array_equal(stops, self._stops)):
+        elif (starts is self._starts or self.numpy.array_equal(starts, self._starts)) and (stops is self._stops or self.numpy.array_equal(stops, self.stops)):
             return self.copy(starts=starts, stops=stops, content=(self._util_deepcopy(self._content) if copy else self._content))
 
         else:
@@ -993,7 +993,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         for jaggedarray in inputs:
             if isinstance(jaggedarray, JaggedArray):
-                starts, stops, parents, good = jaggedarray._starts, jaggedarray._stops, None, None
+                starts, stops, parents, good = jaggedarray._starts, jaggedarray.stops, None, None
                 break
         else:
             assert False
@@ -1063,7 +1063,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1423,13 +1423,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
@@ -1450,9 +1450,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
             offsets = self.numpy.arange(0, (length + 1)*last, last)
             outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            outerstops = offsets[1:].reshape(out._starts.shape[:-2] + (-1,))
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
@@ -1506,8 +1506,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return out
 
         if len(thyself._starts.shape) > 1:
+            thyself._stops = thyself.stops.reshape(-1)
             thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself._stops.reshape(-1)
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
@@ -1583,7 +1583,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self._argminmax(False)
 
     def _argminmax(self, ismin):
-        if len(self._starts) == len(self._stops) == 0:
+        if len(self._starts) == 0:
             return self.copy(content=self.numpy.array([], dtype=self.INDEXTYPE))
 
         if len(self._content.shape) != 1:
@@ -1637,7 +1637,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
+        stops = cls.numpy.concatenate([x.stops for x in arrays])
         content = cls._util_concatenate([x._content for x in arrays])
 
         startsi = 0
@@ -1750,14 +1750,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         first = None
         def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
+            starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)
             if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
                 return x
             else:
                 offsets = x.counts2offsets(stops - starts)
                 starts, stops = offsets[:-1], offsets[1:]
                 starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._stops.shape[1:])
+                stops = stops.reshape((-1,) + x._starts.shape[1:])
                 return x._tojagged(starts, stops, copy=False)
 
         if isinstance(columns1, JaggedArray):
@@ -1770,7 +1770,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     if first is None:
                         columns1[n] = first = ready(x)
                     else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
+                        columns1[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         columns2 = list(columns2)
         for i in range(len(columns2)):
@@ -1779,7 +1779,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns2[i] = first = ready(x)
                 else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns2[i] = x._tojagged(first._starts, first.stops, copy=False)
 
         for n in columns3:
             x = columns3[n]
@@ -1787,7 +1787,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if first is None:
                     columns3[n] = first = ready(x)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    columns3[n] = x._tojagged(first._starts, first.stops, copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
@@ -1807,13 +1807,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 elif isinstance(x, Iterable):
                     columns1[n] = first.tojagged(x)._content
                 elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+                    columns1[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
                 else:
                     raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
         elif isinstance(columns1, Iterable):
             columns1 = first.tojagged(columns1)._content
         elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
+            columns1 = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), columns1, dtype=type(columns1)))._content
         else:
             raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
 
@@ -1824,7 +1824,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns2[i] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns2[i] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1835,7 +1835,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif not isinstance(x, dict) and isinstance(x, Iterable):
                 columns3[n] = first.tojagged(x)._content
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                columns3[n] = JaggedArray(first._starts, first.stops, numpy.full(first.stops.max(), x, dtype=type(x)))._content
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
@@ -1844,13 +1844,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 table = cls.Table.fget(None)(columns1, *columns2, **columns3)
             else:
                 table = cls.Table.fget(None).named("tuple", columns1, *columns2)
-            return cls.JaggedArray.fget(None)(first._starts, first._stops, table)
+            return cls.JaggedArray.fget(None)(first._starts, first.stops, table)
         else:
             if isinstance(columns1, dict) or len(columns3) > 0:
                 table = first.Table(columns1, *columns2, **columns3)
             else:
                 table = first.Table.named("tuple", columns1, *columns2)
-            return first.JaggedArray(first._starts, first._stops, table)
+            return first.JaggedArray(first._starts, first.stops, table)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From 0e6c6cb0041dcdf72cdf28784979d0a7f5821202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 75/88] fix: a ufunc on a chunked array without chunks is an
 array, not None

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index c2cb376..ea31f48 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -578,6 +578,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     batch.append(x)
             batches.append(batch)
 
+        if len(batches) == 0:
+            batches.append([self.numpy.empty((0,) + x.shape[1:], dtype=x.dtype) if isinstance(x, ChunkedArray) else x[:0] if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) else x for x in inputs])
+
         out = None
         chunks = {}
         types = {}
-- 
2.43.0


From 1d0b696d5253e18564ad602f759fc86a745cdba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 76/88] fix: flattening lists of more than one dimension has
 only what is in the lists

---
 awkward0/array/jagged.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 5341e56..1f5b067 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1425,12 +1425,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif self._canuseoffset():
                 return self._content[self._starts[0]:self.stops[-1]]
             else:
-                offsets = self.counts2offsets(self.counts.reshape(-1))
-                if len(self._starts.shape) == 1:
-                    out = self
-                else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
-                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
+                if len(self._starts.shape) != 1:
+                    return self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content).flatten()
+                offsets = self.counts2offsets(self.counts)
+                return self._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
         if len(self._starts) > len(self._stops):
-- 
2.43.0


From b7deb3ee694dd75ec4b8e910e12c17dd0b755ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 77/88] fix: selecting from lists of lists by lists of lists
 reads only what is in the outer lists

---
 awkward0/array/jagged.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 1f5b067..0e2027d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -537,7 +537,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
             content, headcontent = self._util_materialize([self._content, head._content])
             if isinstance(content, JaggedArray) and isinstance(headcontent, JaggedArray):
-                return self.copy(content=content[headcontent])
+                offsets = self.counts2offsets(self.counts.reshape(-1))
+                out = self.copy(content=content).flatten()[head.copy(content=headcontent).flatten()]
+                return self.copy(starts=offsets[:-1].reshape(self._starts.shape), stops=offsets[1:].reshape(self._starts.shape), content=out)
 
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
-- 
2.43.0


From 9f27060d513f08adb253e1f92416842c30fb5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 78/88] fix: regular() of lists of lists reads only what is in
 the outer lists

---
 awkward0/array/jagged.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0e2027d..fbd847d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1062,16 +1062,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(self) > 0 and not (self.counts.reshape(-1)[0] == self.counts).all():
             raise ValueError("jagged array is not regular: different elements have different counts")
         count = self.counts.reshape(-1)[0]
-        content = self._util_regular(self._content)
-
-        if self._canuseoffset():
-            out = content[self._starts[0]:self.stops[-1]]
-            return out.reshape(self._starts.shape + (count,) + content.shape[1:])
-
-        else:
-            indexes = self.numpy.repeat(self._starts, awkward0.util.windows_safe(count)).reshape(self._starts.shape + (count,))
-            indexes += self.numpy.arange(count)
-            return content[indexes]
+        content = self._util_regular(self._content)[:0] if count == 0 else self._util_regular(self.flatten())
+        return content.reshape(self._starts.shape + (count,) + content.shape[1:])
 
     def _argpairs(self):
         self._valid()
-- 
2.43.0


From 03d6bcfc6b302b31f21c527160ed1d84aee9d92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 79/88] fix: the mask of a jagged array of more than one
 dimension with stops longer than starts

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index fbd847d..9fd2a67 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -571,7 +571,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     offsets = self.counts2offsets(self.counts.reshape(-1))
                     thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
                     thyself._starts.shape = self._starts.shape
-                    thyself._starts.shape = self._stops.shape
+                    thyself._stops.shape = self._starts.shape
 
                 head = head._tojagged(thyself._starts, thyself.stops, copy=False)
                 inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
-- 
2.43.0


From 6291e55a99d6a0afba983067e7ef9acfa798670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 80/88] fix: a failure to load the content of a jagged array
 with ValueError is not lost in arithmetic

The ValueError was taken for 'starts and stops are not compatible with a single offsets array'.
---
 awkward0/array/jagged.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9fd2a67..97da652 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -960,8 +960,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         starts, stops = None, None
         for i in range(len(inputs)):
             if isinstance(inputs[i], JaggedArray):
+                inputs[i]._valid()                # a failure to load the content is not an incompatibility
                 try:
-                    offsets = inputs[i].offsets   # calls _valid()
+                    offsets = inputs[i].offsets
                 except ValueError:
                     counts = inputs[i].counts
                     offsets = self.counts2offsets(counts.reshape(-1))
-- 
2.43.0


From 4999e9e7ef20491cefe1104be49d51a8177fd912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 81/88] fix: fillna does not overwrite the data of the array
 that it is called on

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index d5f190c..dc2fb23 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -678,7 +678,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_fillna(cls, array, value):
         if isinstance(array, cls.numpy.ndarray):
-            data = cls.numpy.ma.getdata(array)
+            data = cls.numpy.ma.getdata(array).copy()
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
                 data[mask] = value
-- 
2.43.0


From f4a8212a2ddce4baf566e4a71ec16fe71689634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 82/88] fix: JaggedArray.zip does not replace what is in the
 caller's dict

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 97da652..01956e2 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1757,6 +1757,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             columns1 = first = ready(columns1)
 
         if isinstance(columns1, dict):
+            columns1 = columns1.copy()      # the caller keeps its own
             for n in columns1:
                 x = columns1[n]
                 if isinstance(x, JaggedArray):
-- 
2.43.0


From 70128593c852e04ae09bae7564d4e973ff6b5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 83/88] fix: topandas of a lazy array can be loaded, and does
 not share its persistent key

---
 awkward0/array/virtual.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 001fb69..80429f3 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -561,7 +561,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @staticmethod
     def _topandas_doit(virtualarray):
-        return virtualarray.array._topandas()
+        array = virtualarray.array
+        if isinstance(array, awkward0.array.base.AwkwardArray):
+            return array._topandas({})
+        else:
+            return array
 
     _topandas_name = "VirtualSeries"
 
@@ -570,6 +574,6 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         if id(self) in seen:
             return seen[id(self)]
         else:
-            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, persistentkey=self.persistentkey, type=self.type, nbytes=self.nbytes, persistvirtual=self.persistvirtual)
+            out = seen[id(self)] = self.VirtualArray(self._topandas_doit, (self,), cache=self.cache, type=self.type, nbytes=self.nbytes, persistvirtual=self.persistvirtual)
             out.__class__ = awkward0.pandas.mixin(type(self))
             return out
-- 
2.43.0


From 9cd88d3607141fbb3e597ab0e35d6166c7d59db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 84/88] fix: selecting from a SparseArray does not change the
 caller's array of negative indexes

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index cfa140b..2b2c9c7 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -610,7 +610,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
-                    head[mask] += self._length
+                    head = self.numpy.where(mask, head + self._length, head)
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
-- 
2.43.0


From 0d32202d23359ed44267c0466222e6381c43b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:31 +0000
Subject: [PATCH 85/88] fix: a SparseArray keeps its inverse index only when it
 is complete

---
 awkward0/array/indexed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 2b2c9c7..57edd3b 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -632,9 +632,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def _getinverse(self):
         if self._inverse is None:
-            self._inverse = self.numpy.searchsorted(self._index, self.numpy.arange(self._length, dtype=self.INDEXTYPE), side="left")
+            inverse = self.numpy.searchsorted(self._index, self.numpy.arange(self._length, dtype=self.INDEXTYPE), side="left")
             if len(self._index) > 0:
-                self._inverse[self._index[-1] + 1 :] = len(self._index) - 1
+                inverse[self._index[-1] + 1 :] = len(self._index) - 1
+            self._inverse = inverse
         return self._inverse
 
     @property
-- 
2.43.0


From 62c20a27583b37e56d17da3566fd1c8af12e734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 86/88] fix: counts of a SparseArray does not take an
 interruption or a failed load for a default that is not a list

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 57edd3b..de5001c 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -714,7 +714,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_counts(self._content)
         try:
             defaultlen = len(self.default)
-        except:
+        except TypeError:
             defaultlen = -1
         out = self.numpy.full(self.shape, defaultlen, dtype=content.dtype)
         if len(self._index) != 0:
-- 
2.43.0


From d188bbfb058f9066a6a888dc4dd8d2aa2361f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:35 +0000
Subject: [PATCH 87/88] fix: a[rows, columns] with negative columns

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 01956e2..256f891 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -744,7 +744,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         index = head.copy() if head is original_head else head
                         mask = (index < 0)
                         if mask.any():
-                            index[mask] += head.counts
+                            index[mask] += node.counts[mask]
                         if (index < 0).any() or (index >= node.counts).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
                         index += node._starts
-- 
2.43.0


From 9f022f9231661be68a602618ba46bdaeaf4b4b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 88/88] fix: concatenating tables with columns of different
 lengths keeps rows together

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index f391afb..0321362 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -923,7 +923,7 @@ class Table(awkward0.array.base.AwkwardArray):
             else:
                 concatenate = content_type.concatenate
 
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+            out._contents[n] = concatenate([t[n][:len(t)] for t in tables], axis=0)
 
         out._valid()
         return out
-- 
2.43.0

