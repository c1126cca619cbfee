From 8be23b7a03fdf053abb1613966989aee9e51730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 1/9] fix: element assignment to sparse storage must not
 overwrite other elements

solve_index accepted every position when the shape was empty, so
COO/FlatCOO/CSR/DM element assignment matched all stored elements.
---
 gcs/slice_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..9984b0c 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -340,6 +340,8 @@ def solve_index(pos, shape, strides, data=None):
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
     assert not shape or s is not None
+    if not shape and pos:
+        return  # the only position of a zero-dimensional array is 0
     if pos % d:
         return  # no solution exists
 
-- 
2.43.0


From 60ed1b0ae9393db8b90f0661d452b74399fc3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 2/9] fix: DM slicing must keep the reduced offset when a whole
 reduced dimension is fixed

Integer-indexing an already sliced DM array dropped self.roffset and
returned elements of a different row.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From 8051eb2abef1f777b4463bf665c814b959dad4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 3/9] fix: slicing of empty arrays must not fail

Slicing along a zero-length axis raised ZeroDivisionError and slicing a
strided array with an empty buffer raised IndexError; the latter broke
the conversion of arrays without specified elements to CSR.
---
 gcs/slice_tools.py | 4 ++--
 gcs/storage.py     | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 9984b0c..4ef6dba 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -84,7 +84,7 @@ def apply_slices(slices, shape, strides):
             offset += stride * (s % size)
         elif isinstance(s, slice):
             s = reduced(s, size)
-            offset += stride * (s.start % size)
+            offset += stride * (s.start % size if size else 0)
             new_strides.append(stride * s.step)
             new_shape.append(nitems(s, size, reduce=False))
         elif s is None:  # None represents slice(None, None, None)
@@ -115,7 +115,7 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            offset += stride * (ind.start % size if size else 0)
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..540105c 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -649,7 +649,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
-        return Strided(shape, strides, self.data[offset:])
+        # an empty buffer has no start position to slice from
+        data = self.data[offset:] if self.data.size else self.data
+        return Strided(shape, strides, data)
 
 
 class COO(Storage):
-- 
2.43.0


From b64446a1a5cd3ebe8ed1d207daea2d25a5d0032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 4/9] fix: element-wise equality must not depend on how
 unspecified elements are stored

equal() compared the placeholders stored by dense formats against the
absent entries of sparse formats, so an array with unspecified elements
was never equal to its own conversion.
---
 gcs/storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 540105c..18943c3 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -333,19 +333,21 @@ class Storage:
         """
         d1, d2 = {}, {}
         for index, value in self.elements():
-            d1[index] = value
+            if value != self.unspecified:
+                d1[index] = value
         if not isinstance(other, Storage):
             if isinstance(self, Buffer):
                 other = type(self).fromobject(other, unspecified=self.unspecified)
             else:
                 other = Strided.fromobject(other, unspecified=self.unspecified)
         for index, value in other.elements():
-            d2[index] = value
+            if value != other.unspecified:
+                d2[index] = value
         if d1 != d2:
             print()
             print(f'{d1=}')
             print(f'{d2=}')
-        return d1 == d2
+        return self.shape == other.shape and d1 == d2
 
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
-- 
2.43.0


From 1951bf1eae920007b3bf0e2e2fe61494d27bdd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 5/9] fix: iterating a storage object must stop after its last
 item

Integer indices wrap around, so the implicit sequence iteration protocol
never met IndexError and list(storage) or 'x in storage' did not end.
---
 gcs/storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index 18943c3..56f5a46 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -291,6 +291,10 @@ class Storage:
     def __len__(self):
         return self.shape[0]
 
+    def __iter__(self):
+        for i in range(self.shape[0]):
+            yield self[i]
+
     def __eq__(self, other):
         if isinstance(other, type(self)):
             return self is other or self._get_object_data() == other._get_object_data()
-- 
2.43.0


From 175fb877997ff5054554df8fb7ed0483fe0709a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 6/9] fix: get_index must take its offset argument into account

---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 56f5a46..4f45919 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -170,7 +170,7 @@ def get_index(pos, shape, strides, offset=0):
     index (pos) of an one-dimensional dimensionality reduced array.
     """
     warnings.warn('Suggest using slice_tools.solve_index with data rather than get_index')
-    return slice_tools.solve_index(pos, shape, strides)
+    return slice_tools.solve_index(pos - offset, shape, strides)
 
 
 def get_position(index, shape, strides):
-- 
2.43.0


From 4486b8c04dbfebbf58dcda769168f95a215cfa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 7/9] fix: Buffer elements must be indexed with tuples as in
 other storage formats

A Buffer yielded bare integers as element indices, so it never compared
element-wise equal to a 1-dimensional array in any other format.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 4f45919..b0f06a0 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -598,7 +598,7 @@ class Buffer(Storage):
     def indices_and_data_position(self):
         for data_pos in range(self.offset, self.offset + self.size):
             index = data_pos - self.offset
-            yield index, data_pos
+            yield (index,), data_pos
 
 
 class Strided(Storage):
-- 
2.43.0


From 77034f23bdf5d3b0733cf9d1a5b9c40e7641dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 8/9] fix: slicing an empty sparse array must not fail

The strides of an array with a zero-length axis contain zeros, for which
the Diophantine solver divided by zero or met a zero pivot.
---
 gcs/slice_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 4ef6dba..fca1b67 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -206,6 +206,10 @@ def init_diophantine(a, shape=None):
     if len(a) == 0:
         return 1, (), (), (), (), None
 
+    if shape is not None and 0 in shape:
+        # an empty array has zero strides and no valid indices
+        return 1, (0,) * len(a), (), (), (), shape
+
     if len(a) == 1:
         d = a[0]
         return d, (1,), (), (), (), shape
-- 
2.43.0


From 15104c1925c2ffe18acaf8d8cdd7cdcfd4fdeff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 9/9] fix: a failing git command must not break importing the
 package

git_pieces_from_vcs converted the missing output of 'git rev-list' and
'git show' without checking that the commands succeeded.
---
 gcs/_version.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 2c0692c..cfffdc0 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -295,11 +295,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
+        if count_out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = int(count_out)  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
+    date = date.strip()
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0

