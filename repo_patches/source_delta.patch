From cec6e5127f250502b1bac5005aad64fa254e1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 01/54] fix: align_axis uses the axis of each larry for inner
 and outer joins

---
 la/flarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 1b2ca9b..5b44056 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -504,10 +504,10 @@ def align_axis(lars, axis=0, join='inner'):
         label = frozenset(lars[0].label[axis[0]])
         if join == 'inner':
             for i, lar in enumerate(lars[1:]):
-                label = label.intersection(lar.label[axis[i]])
+                label = label.intersection(lar.label[axis[i+1]])
         elif join == 'outer':
             for i, lar in enumerate(lars[1:]):
-                label = label.union(lar.label[axis[i]])
+                label = label.union(lar.label[axis[i+1]])
         label = list(label)
         label.sort()
     lars_out = []
-- 
2.43.0


From 8e1cc30805fa1227ca28b770e77aa0234a8c1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 02/54] fix: binaryop does not fill missing values in its input
 larrys

---
 la/flarry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index 5b44056..9adf51f 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -763,10 +763,17 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     """
 
     # Align
-    x1, x2, label, ign1, ign2 = align_raw(lar1, lar2, join=join, cast=cast)
+    x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
+                                                  cast=cast)
 
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
+        # Missing values are replaced in place, so don't work on a view of
+        # the input larrys
+        if x1isview:
+            x1 = x1.copy()
+        if x2isview:
+            x2 = x2.copy()
         miss1 = ismissing(x1)
         miss2 = ismissing(x2)
     if missone != 'ignore':
-- 
2.43.0


From ccd30b9c2c76323182a2b04f8c66a4bbfd87b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 03/54] fix: outer, left and right alignment of a larry with an
 empty axis

---
 la/flarry.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 9adf51f..d614084 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -300,8 +300,8 @@ def align_raw(lar1, lar2, join='inner', cast=True):
                 list3.sort()
                 idx1, idx1_miss = listmap_fill(list1, list3, fill=0)
                 idx2, idx2_miss = listmap_fill(list2, list3, fill=0)
-                x1 = x1.take(idx1, ax)
-                x2 = x2.take(idx2, ax)
+                x1 = _take_fill(x1, idx1, ax)
+                x2 = _take_fill(x2, idx2, ax)
                 if len(idx1_miss) > 0:
                     if miss1 == undefined:
                         miss1 = missing_marker(lar1)
@@ -332,7 +332,7 @@ def align_raw(lar1, lar2, join='inner', cast=True):
             list3 = list(list1)
             if list1 != list2:
                 idx2, idx2_miss = listmap_fill(list2, list3, fill=0)
-                x2 = x2.take(idx2, ax)
+                x2 = _take_fill(x2, idx2, ax)
                 if len(idx2_miss) > 0:
                     if miss2 == undefined:
                         miss2 = missing_marker(lar2)
@@ -354,7 +354,7 @@ def align_raw(lar1, lar2, join='inner', cast=True):
             list3 = list(list2)
             if list1 != list2:
                 idx1, idx1_miss = listmap_fill(list1, list3, fill=0)
-                x1 = x1.take(idx1, ax)
+                x1 = _take_fill(x1, idx1, ax)
                 if len(idx1_miss) > 0:
                     if miss1 == undefined:
                         miss1 = missing_marker(lar1)
@@ -519,6 +519,14 @@ def align_axis(lars, axis=0, join='inner'):
 
     return tuple(lars_out)
 
+def _take_fill(x, idx, axis):
+    "Like x.take but `axis` may be empty; the caller then fills all of `idx`."
+    if x.shape[axis] > 0:
+        return x.take(idx, axis)
+    shape = list(x.shape)
+    shape[axis] = len(idx)
+    return np.zeros(shape, dtype=x.dtype)
+
 def isaligned(lar1, lar2, axis=None):
     """
     Return True if labels of two given larrys are aligned along specified axis.
-- 
2.43.0


From 086ef7dcc1326b9ca9f8fd25c5f0d0dddcf09fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 04/54] fix: merge leaves its inputs alone and keeps the values
 of every dtype

---
 la/deflarry.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 83f9919..7e585bf 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3472,32 +3472,37 @@ class larry(object):
                 lar1 = lar1.morph(mergelabel, ax)
                 lar2 = lar2.morph(mergelabel, ax)
 
-        # Mask
+        # Trap cases that merge cannot handle
         dtype1 = self.dtype
+        dtype2 = other.dtype
+        if dtype1.kind != dtype2.kind:
+            if dtype1.kind in 'SO' or dtype2.kind in 'SO':
+                raise TypeError('Incompatible dtypes')
+
+        # Mask
         if dtype1 == object:
             mask1 = lar1.x != [None]
         elif self.dtype.type == np.str_:
             mask1 = lar1.x != ''
         else:
             mask1 = np.isfinite(lar1.x)
-        dtype2 = other.dtype
         if dtype2 == object:
             mask2 = lar2.x != [None]
-        elif self.dtype.type == np.str_:
+        elif other.dtype.type == np.str_:
             mask2 = lar2.x != ''
         else:
             mask2 = np.isfinite(lar2.x)
 
-        # Trap cases that merge cannot handle
-        if dtype1 in (np.string_, object) or dtype2 in (np.string_, object):
-            if dtype1 != dtype2:
-                raise TypeError('Incompatible dtypes')
-
         # Check for overlap if requested
         if (not update) and np.logical_and(mask1, mask2).any():
             raise ValueError('Overlapping values')
         else:
+            if lar1 is self:
+                lar1 = self.copy()
             if mask2.any():
+                dtype = np.promote_types(lar1.dtype, lar2.dtype)
+                if lar1.dtype != dtype:
+                    lar1 = lar1.astype(dtype)
                 np.putmask(lar1.x, mask2, lar2.x)
 
         return lar1
-- 
2.43.0


From 3162a89cf5f824463f48c2b3c823f1101b9893b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 05/54] fix: larry indexing with fewer scalars than axes or a
 scalar and a sequence

---
 la/deflarry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 7e585bf..1d0bf2a 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1824,9 +1824,18 @@ class larry(object):
                         raise IndexError(msg)
                 else:
                     lab = self.label[ax]
+                    allscalar = False
                 if lab is not None:
                     label.append(lab)
-            x = self.x[index]
+            x = self.x
+            if validate and type(x) is np.ndarray:
+                # Numpy moves the axis of a sequence to the front when the
+                # sequence and a scalar are separated by a slice
+                isscal = [isscalar(idx) for idx in index]
+                x = x[tuple([idx if z else slice(None)
+                             for idx, z in zip(index, isscal)])]
+                index = tuple([idx for idx, z in zip(index, isscal) if not z])
+            x = x[index]
             if allscalar:
                 return x
         elif typidx is slice:
-- 
2.43.0


From d758540126abc320beb3e44c709e183c91714906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 06/54] fix: larry.move_func passes its extra arguments to the
 function

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 1d0bf2a..02a7495 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3063,7 +3063,7 @@ class larry(object):
         array([ NaN,   3.,   5.,   7.])
 
         """
-        x = move_func(func, self.x, window, axis=axis, method=method)
+        x = move_func(func, self.x, window, axis=axis, method=method, **kwargs)
         return larry(x, self.copylabel(), validate=False)
 
     def movingsum_forward(self, window, skip=0, axis=-1, norm=False):
-- 
2.43.0


From ab305263bac8ff819101493c648807f5cf741efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 07/54] fix: vacuum with negative axis, cut_missing along all
 axes

---
 la/deflarry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 02a7495..5056fc2 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3967,7 +3967,7 @@ class larry(object):
         ndim = y.ndim
 
         if axis is None:
-            axes = range(ndim)
+            axes = []
         else:
             axes = [range(ndim)[axis]]
 
@@ -4042,11 +4042,11 @@ class larry(object):
         if axis is None:
             axes = range(ndim)
         elif not hasattr(axis, '__iter__'):
-            axes = [axis]
+            axes = [range(ndim)[axis]]
             # Change meaning of axes to axes not in original axes
             axes = [a for a in range(ndim) if a not in axes]
         else:
-            axes = axis
+            axes = [range(ndim)[a] for a in axis]
             # Change meaning of axes to axes not in original axes
             axes = [a for a in range(ndim) if a not in axes]
 
-- 
2.43.0


From b31a7a25d281253b3e1014f00ebf8470d4882e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/54] fix: pull returns a larry of length one and copies the
 label

---
 la/deflarry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 5056fc2..34b720e 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2365,14 +2365,14 @@ class larry(object):
         """
         if axis is None:
             raise ValueError('axis cannot be None')
-        label = list(self.label)
+        label = self.copylabel()
         label.pop(axis)
         idx = self.labelindex(name, axis)
         index = [slice(None)] * self.ndim
         index[axis] = idx
-        x = self.x[index]
-        if x.shape == (1,):
-            return x[0]
+        x = self.x[tuple(index)]
+        if self.ndim == 1:
+            return x
         return larry(x, label)
 
     def fill(self, fill_value):
-- 
2.43.0


From 184bd4b368013a72a72684fef832fdb4fd4228c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 09/54] fix: squeeze does not create 0d larrys

---
 la/deflarry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 34b720e..adfc459 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3552,6 +3552,8 @@ class larry(object):
         for i in idx:
             label.append(self.label[i])
         x = self.x.squeeze()
+        if x.ndim == 0:
+            return x[()]
         return larry(x, label, validate=False)
 
     def lag(self, nlag, axis=-1):
-- 
2.43.0


From b54ff8c346279c03fd8a7b5f35bb2a90f837cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 10/54] fix: maplabel refuses functions that create duplicate
 labels

---
 la/deflarry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index adfc459..d278219 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2703,10 +2703,15 @@ class larry(object):
         else:
             y = self
         if axis is None:
-            for ax in range(y.ndim):
-                y.label[ax] = list(map(func, y.label[ax]))
+            axes = range(y.ndim)
         else:
-            y.label[axis] = list(map(func, y.label[axis]))
+            axes = [axis]
+        label = [list(map(func, y.label[ax])) for ax in axes]
+        for lab in label:
+            if len(frozenset(lab)) != len(lab):
+                raise ValueError('`func` maps two labels to the same label.')
+        for ax, lab in zip(axes, label):
+            y.label[ax] = lab
         return y
 
     # Moving window statistics ----------------------------------------------
-- 
2.43.0


From aa3886196c93f4b0eb0f0b5c4ee25bc4434eccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 11/54] fix: lara indexing with a list, array or larry and
 assignment of a larry

---
 la/io.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/la/io.py b/la/io.py
index aa7b6b4..a832208 100644
--- a/la/io.py
+++ b/la/io.py
@@ -329,19 +329,27 @@ class lara(object):
         labelindex = larry.labelindex
 
     def __getitem__(self, index):
+        if type(index) in (list, np.ndarray, larry):
+            # The larry code for these expects self.x to be a Numpy array
+            index = (index,) + (slice(None),) * (self.ndim - 1)
+        x = self.x
         f = h5py.File(self.filename, 'r')
-        self.x = f[self.key]['x']
-        lar = self._larry_getitem(index)
-        f.close()
-        self.x = None
-        return lar
+        try:
+            self.x = f[self.key]['x']
+            return self._larry_getitem(index)
+        finally:
+            # Not None if called by __setitem__
+            self.x = x
+            f.close()
 
     def __setitem__(self, index, value):
         f = h5py.File(self.filename)
-        self.x = f[self.key]['x']
-        self._larry_setitem(index, value)
-        self.x = None
-        f.close()
+        try:
+            self.x = f[self.key]['x']
+            self._larry_setitem(index, value)
+        finally:
+            self.x = None
+            f.close()
 
     @property
     def shape(self):
-- 
2.43.0


From 8e59187433b65cb080321f506b683a3d9a2ba516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 12/54] fix: archive operations that fail close the archive

---
 la/io.py | 144 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 78 insertions(+), 66 deletions(-)

diff --git a/la/io.py b/la/io.py
index a832208..77649b9 100644
--- a/la/io.py
+++ b/la/io.py
@@ -162,16 +162,16 @@ class IO(object):
 
     def __getitem__(self, key):
         f = h5py.File(self.filename, 'r')
-        if key in f:
-            if _is_archived_larry(f[key]):
-                f.close()
-                x = lara(self.filename, key)
-                return x
-            else:
+        try:
+            if key not in f:
+                msg = "A larry named %s is not in the archive."
+                raise KeyError(msg % key)
+            if not _is_archived_larry(f[key]):
                 msg = "%s is in the archive but it is not a larry."
                 raise KeyError(msg % key)
-        else:
-            raise KeyError("A larry named %s is not in the archive." % key)
+        finally:
+            f.close()
+        return lara(self.filename, key)
 
     def __setitem__(self, key, value):
 
@@ -182,17 +182,19 @@ class IO(object):
             raise TypeError('value must be a larry.')
 
         f = h5py.File(self.filename)
+        try:
 
-        # Does an item (larry or otherwise) with given key already exist? If
-        # so delete. Note that f.keys() [all keys] is used instead of
-        # self.keys() [keys that are larrys].
-        if key in f.keys():
-            self.__delitem__(key)
+            # Does an item (larry or otherwise) with given key already exist?
+            # If so delete. Note that f.keys() [all keys] is used instead of
+            # self.keys() [keys that are larrys].
+            if key in f.keys():
+                self.__delitem__(key)
 
-        # If you've made it this far the data looks OK so save it
-        save(f, value, key)
+            # If you've made it this far the data looks OK so save it
+            save(f, value, key)
 
-        f.close()
+        finally:
+            f.close()
 
     def __delitem__(self, key):
         delete(self.filename, key)
@@ -442,23 +444,25 @@ def save(file, lar, key):
 
     # Get a h5py.File instance
     f, opened = _openfile(file)
-
-    # Do we need to create any intermediate groups?
-    _create_nested_groups(f, key)
-
-    # Save larry
-    fkey = f[key]
-    fkey.attrs['larry'] = True
-    fkey['x'] = lar.x
-    for i in range(lar.ndim):
-        fkey[str(i)], datetime_type = _list2array(lar.label[i])
-        fkey[str(i)].attrs['datetime_type'] = datetime_type
-
-    # Close if file is a filename
-    if opened:
-        f.close()
-    else:
-        f.flush()
+    try:
+
+        # Do we need to create any intermediate groups?
+        _create_nested_groups(f, key)
+
+        # Save larry
+        fkey = f[key]
+        fkey.attrs['larry'] = True
+        fkey['x'] = lar.x
+        for i in range(lar.ndim):
+            fkey[str(i)], datetime_type = _list2array(lar.label[i])
+            fkey[str(i)].attrs['datetime_type'] = datetime_type
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
+        else:
+            f.flush()
 
 def load(file, key):
     """
@@ -509,19 +513,21 @@ def load(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
-    if key not in f:
-        raise KeyError("A larry named '%s' is not in archive." % key)
-    if not _is_archived_larry(f[key]):
-        raise KeyError('key (%s) is not a larry.' % key)
-
-    # Load larry
-    group = f[key]
-    x = group['x'][:]
-    label = _load_label(f, key)
-
-    # Close if file is a filename
-    if opened:
-        f.close()
+    try:
+        if key not in f:
+            raise KeyError("A larry named '%s' is not in archive." % key)
+        if not _is_archived_larry(f[key]):
+            raise KeyError('key (%s) is not a larry.' % key)
+
+        # Load larry
+        group = f[key]
+        x = group['x'][:]
+        label = _load_label(f, key)
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
 
     return larry(x, label)
 
@@ -567,17 +573,19 @@ def delete(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
-    if key not in f:
-        raise KeyError("A larry named '%s' is not in archive." % key)
-    if not _is_archived_larry(f[key]):
-        raise KeyError('key (%s) is not a larry.' % key)
-
-    # Delete
-    del f[key]
-
-    # Close if file is a filename
-    if opened:
-        f.close()
+    try:
+        if key not in f:
+            raise KeyError("A larry named '%s' is not in archive." % key)
+        if not _is_archived_larry(f[key]):
+            raise KeyError('key (%s) is not a larry.' % key)
+
+        # Delete
+        del f[key]
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
 
 def repack(file):
     """
@@ -618,12 +626,14 @@ def repack(file):
 def is_archived_larry(file, key):
     "True if the key (larry name) is in the archive, False otherwise."
     f, opened = _openfile(file)
-    if key in f:
-        answer = _is_archived_larry(f[key])
-    else:
-        raise ValueError('key (%s) is not in archive.' % str(key))
-    if opened:
-        f.close()
+    try:
+        if key in f:
+            answer = _is_archived_larry(f[key])
+        else:
+            raise ValueError('key (%s) is not in archive.' % str(key))
+    finally:
+        if opened:
+            f.close()
     return answer
 
 def archive_directory(file):
@@ -633,9 +643,11 @@ def archive_directory(file):
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
             keys.append(name)
-    f.visititems(append_larrys)
-    if opened:
-        f.close()
+    try:
+        f.visititems(append_larrys)
+    finally:
+        if opened:
+            f.close()
     return keys
 
 # Utility functions for internal use ----------------------------------------
-- 
2.43.0


From 1d9d840626ef4ad5a5cafcbe5c9220ae7b08d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 13/54] fix: a save that is refused leaves the archive as it
 was

---
 la/io.py | 67 +++++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/la/io.py b/la/io.py
index 77649b9..7a78587 100644
--- a/la/io.py
+++ b/la/io.py
@@ -181,14 +181,15 @@ class IO(object):
         if not isinstance(value, larry):
             raise TypeError('value must be a larry.')
 
+        data = _larry2arrays(value)
         f = h5py.File(self.filename)
         try:
 
-            # Does an item (larry or otherwise) with given key already exist?
-            # If so delete. Note that f.keys() [all keys] is used instead of
-            # self.keys() [keys that are larrys].
-            if key in f.keys():
-                self.__delitem__(key)
+            # Make sure that the larry can be saved before deleting the one
+            # that it replaces, if any
+            _check_save(f, data, key, overwrite=True)
+            if key in f and _is_archived_larry(f[key]):
+                delete(f, key)
 
             # If you've made it this far the data looks OK so save it
             save(f, value, key)
@@ -442,20 +443,24 @@ def save(file, lar, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
 
+    # Convert to arrays; raises if the larry cannot be archived
+    data = _larry2arrays(lar)
+
     # Get a h5py.File instance
     f, opened = _openfile(file)
     try:
+        _check_save(f, data, key)
 
         # Do we need to create any intermediate groups?
         _create_nested_groups(f, key)
 
         # Save larry
         fkey = f[key]
+        for name, x, datetime_type in data:
+            fkey[name] = x
+            if datetime_type is not None:
+                fkey[name].attrs['datetime_type'] = datetime_type
         fkey.attrs['larry'] = True
-        fkey['x'] = lar.x
-        for i in range(lar.ndim):
-            fkey[str(i)], datetime_type = _list2array(lar.label[i])
-            fkey[str(i)].attrs['datetime_type'] = datetime_type
 
     finally:
         # Close if file is a filename
@@ -652,6 +657,44 @@ def archive_directory(file):
 
 # Utility functions for internal use ----------------------------------------
 
+def _larry2arrays(lar):
+    "List of (name, array, datetime_type), one for x and one for each label."
+    data = [('x', lar.x, None)]
+    for i in range(lar.ndim):
+        x, datetime_type = _list2array(lar.label[i])
+        if x.ndim != 1:
+            msg = 'Elements of a label must be of a type supported by HDF5.'
+            raise TypeError(msg)
+        data.append((str(i), x, datetime_type))
+    for name, x, datetime_type in data:
+        # Raises TypeError if dtype is not supported by HDF5
+        h5py.h5t.py_create(x.dtype, logical=1)
+    return data
+
+def _check_save(f, data, key, overwrite=False):
+    "Raise if saving `data` under the given key would fail."
+    path = [group for group in key.split('/') if group != '']
+    if len(path) == 0:
+        raise ValueError('key must not be empty.')
+    for i in range(len(path)):
+        group = '/'.join(path[:i+1])
+        if group not in f:
+            return
+        if not isinstance(f[group], h5py.Group):
+            msg = '%s already exists and is not a h5.py.Group object.'
+            raise ValueError(msg % group)
+    used = set(f[key].keys())
+    if overwrite and _is_archived_larry(f[key]):
+        used -= set(_dataset_names(f[key]))
+    for name, x, datetime_type in data:
+        if name in used:
+            msg = '%s already exists in the archive.'
+            raise ValueError(msg % (key + '/' + name))
+
+def _dataset_names(group):
+    "Names of the datasets of an archived larry."
+    return ['x'] + [str(i) for i in range(len(group['x'].shape))]
+
 def _load_label(file, key):
     "Load larry labels from archive given the hpy5.Group object of the larry."
     f, opened = _openfile(file)
@@ -735,10 +778,8 @@ def _is_archived_larry(obj):
     if isinstance(obj, h5py.Group):
         if 'larry' in obj.attrs:
             if obj.attrs['larry'] == True:
-                if 'x' in obj:
-                    ndim = len(obj['x'].shape)
-                    labels = map(str, range(ndim))
-                    if all([label in obj for label in labels]):
+                if isinstance(obj.get('x'), h5py.Dataset):
+                    if all([name in obj for name in _dataset_names(obj)]):
                         return True
     return False
 
-- 
2.43.0


From 5c8e9f4376116fe65f13dca770ccf11455c5df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 14/54] fix: deleting a larry keeps the larrys nested in its
 group

---
 la/io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/la/io.py b/la/io.py
index 7a78587..a4810a2 100644
--- a/la/io.py
+++ b/la/io.py
@@ -201,6 +201,9 @@ class IO(object):
         delete(self.filename, key)
 
     def __contains__(self, key):
+        if type(key) == str:
+            # Same larry with or without, e.g., a leading slash
+            key = '/'.join([group for group in key.split('/') if group != ''])
         if key in self.keys():
             return True
         return False
@@ -584,8 +587,13 @@ def delete(file, key):
         if not _is_archived_larry(f[key]):
             raise KeyError('key (%s) is not a larry.' % key)
 
-        # Delete
-        del f[key]
+        # Delete; there may be other larrys inside the group
+        group = f[key]
+        for name in _dataset_names(group):
+            del group[name]
+        del group.attrs['larry']
+        if len(group) == 0:
+            del f[key]
 
     finally:
         # Close if file is a filename
-- 
2.43.0


From 2ede361d8f14897785c5552effae6c7d04c22049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 15/54] fix: a repack that fails leaves the archive in place

---
 la/io.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/la/io.py b/la/io.py
index a4810a2..6790067 100644
--- a/la/io.py
+++ b/la/io.py
@@ -621,14 +621,31 @@ def repack(file):
     f1, opened = _openfile(file)
     filename1 = f1.filename
     filename2 = filename1 + '_repack_tmp_' + randstring(4)
-    f2 = h5py.File(filename2)
-    for key in f1.keys():
-        f1.copy(key, f2)
+    try:
+        f2 = h5py.File(filename2)
+        try:
+            for key in f1.keys():
+                f1.copy(key, f2)
+        finally:
+            f2.close()
+    except:
+        if opened:
+            f1.close()
+        if os.path.exists(filename2):
+            os.remove(filename2)
+        raise
     f1.close()
-    f2.close()
     filename_tmp = filename1 + '_repack_rename_tmp_' + randstring(4)
-    os.rename(filename1, filename_tmp)
-    os.rename(filename2, filename1)
+    try:
+        os.rename(filename1, filename_tmp)
+        try:
+            os.rename(filename2, filename1)
+        except:
+            os.rename(filename_tmp, filename1)
+            raise
+    except:
+        os.remove(filename2)
+        raise
     if opened:
         f = None
     else:
-- 
2.43.0


From 03d3b2fa17003facd69bd5d934ca5f536e745c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/54] fix: a save that fails part way leaves nothing behind

---
 la/io.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/la/io.py b/la/io.py
index 6790067..4377023 100644
--- a/la/io.py
+++ b/la/io.py
@@ -459,11 +459,18 @@ def save(file, lar, key):
 
         # Save larry
         fkey = f[key]
-        for name, x, datetime_type in data:
-            fkey[name] = x
-            if datetime_type is not None:
-                fkey[name].attrs['datetime_type'] = datetime_type
-        fkey.attrs['larry'] = True
+        try:
+            for name, x, datetime_type in data:
+                fkey[name] = x
+                if datetime_type is not None:
+                    fkey[name].attrs['datetime_type'] = datetime_type
+            fkey.attrs['larry'] = True
+        except:
+            # Don't leave part of a larry behind
+            for name, x, datetime_type in data:
+                if name in fkey:
+                    del fkey[name]
+            raise
 
     finally:
         # Close if file is a filename
-- 
2.43.0


From 617835313e2a4774b5109f550c9e946639f0dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 17/54] fix: operators refuse operands that change the shape

---
 la/deflarry.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index d278219..5ae5409 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -684,7 +684,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = self.x + other
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     __radd__ = __add__
@@ -729,7 +729,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = self.x - other
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __rsub__(self, other):
@@ -778,7 +778,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = self.x / other
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __rdiv__(self, other):
@@ -790,7 +790,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
             x = other / self.x
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __truediv__(self, other):
@@ -835,7 +835,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = self.x / other
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __floordiv__(self, other):
@@ -880,7 +880,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = self.x // other
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __rtruediv__(self, other):
@@ -892,7 +892,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
             x = other / self.x
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __rfloordiv__(self, other):
@@ -904,7 +904,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
             x = other // self.x
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     def __mul__(self, other):
@@ -948,7 +948,7 @@ class larry(object):
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = self.x * other
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     __rmul__ = __mul__
@@ -984,15 +984,15 @@ class larry(object):
             if self.label == other.label:
                 x = np.logical_and(self.x, other.x)
                 label = self.copylabel()
-                return larry(x, label, validate=False)
+                return larry(x, label, validate=(x is NotImplemented))
             else:
                 x, y, label = self.__align(other)
                 x = np.logical_and(x, y)
-                return larry(x, label, validate=False)
+                return larry(x, label, validate=(x is NotImplemented))
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = np.logical_and(self.x, other)
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     __rand__ = __and__
@@ -1028,15 +1028,15 @@ class larry(object):
             if self.label == other.label:
                 x = np.logical_or(self.x, other.x)
                 label = self.copylabel()
-                return larry(x, label, validate=False)
+                return larry(x, label, validate=(x is NotImplemented))
             else:
                 x, y, label = self.__align(other)
                 x = np.logical_or(x, y)
-                return larry(x, label, validate=False)
+                return larry(x, label, validate=(x is NotImplemented))
         if np.isscalar(other) or isinstance(other, np.ndarray):
             x = np.logical_or(self.x, other)
             label = self.copylabel()
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
     __ror__ = __or__
@@ -1700,7 +1700,7 @@ class larry(object):
             else:
                 raise ValueError('Unknown comparison operator')
             if isinstance(x, np.ndarray):
-                y = larry(x, self.copylabel(), validate=False)
+                y = larry(x, self.copylabel(), validate=(x.shape != self.shape))
             else:
                 y = x
             return y
@@ -1720,7 +1720,7 @@ class larry(object):
                 x = x >= y
             else:
                 raise ValueError('Unknown comparison operator')
-            return larry(x, label, validate=False)
+            return larry(x, label, validate=(not isinstance(x, np.ndarray)))
         else:
             raise TypeError('Input must be scalar, numpy array, or larry.')
 
-- 
2.43.0


From 86137094dec6d8379eb30afcc24889f36b457e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 18/54] fix: right subtraction of bool larrys

---
 la/deflarry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 5ae5409..98859b7 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -734,6 +734,10 @@ class larry(object):
 
     def __rsub__(self, other):
         "Right subtract a larry with a another larry, Numpy array, or scalar."
+        if np.isscalar(other) or isinstance(other, np.ndarray):
+            x = other - self.x
+            label = self.copylabel()
+            return larry(x, label, validate=(x.shape != self.shape))
         return -self.__sub__(other)
 
     def __div__(self, other):
-- 
2.43.0


From 33811a2555196e38a84b39578e89f00be3d3cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 19/54] fix: binaryop refuses the skip join instead of
 returning a larry without labels

---
 la/flarry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/flarry.py b/la/flarry.py
index d614084..fc88bc4 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -774,6 +774,9 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
                                                   cast=cast)
 
+    if None in label:
+        raise ValueError("The 'skip' join method is not supported.")
+
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
         # Missing values are replaced in place, so don't work on a view of
-- 
2.43.0


From 06d2b67f7bef6839d16df1d685fe093742343169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 20/54] fix: true division of integer larrys

---
 la/deflarry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 98859b7..bd5f6d0 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2,6 +2,7 @@
 
 import sys
 import csv
+import operator
 
 import numpy as np
 import bottleneck as bn
@@ -829,15 +830,15 @@ class larry(object):
         """
         if isinstance(other, larry):
             if self.label == other.label:
-                x = self.x / other.x
+                x = operator.truediv(self.x, other.x)
                 label = self.copylabel()
                 return larry(x, label, validate=False)
             else:
                 x, y, label = self.__align(other)
-                x = x / y
+                x = operator.truediv(x, y)
                 return larry(x, label, validate=False)
         if np.isscalar(other) or isinstance(other, np.ndarray):
-            x = self.x / other
+            x = operator.truediv(self.x, other)
             label = self.copylabel()
             return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
@@ -895,7 +896,7 @@ class larry(object):
             raise RuntimeError(msg)
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
-            x = other / self.x
+            x = operator.truediv(other, self.x)
             return larry(x, label, validate=(x.shape != self.shape))
         raise TypeError('Input must be scalar, array, or larry.')
 
-- 
2.43.0


From 7ff16a54ee3ca5d2accd9d0d8c290cc0bc14499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 21/54] fix: indexing with a list does not share labels with
 the indexed larry

---
 la/deflarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index bd5f6d0..19d844d 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1828,7 +1828,7 @@ class larry(object):
                         msg = 'I do not recognize the way you are indexing'
                         raise IndexError(msg)
                 else:
-                    lab = self.label[ax]
+                    lab = list(self.label[ax])
                     allscalar = False
                 if lab is not None:
                     label.append(lab)
@@ -1849,7 +1849,7 @@ class larry(object):
             x = self.x[index]
             validate = False
         elif typidx is list:
-            label = list(self.label)
+            label = self.copylabel()
             lab = [label[0][int(i)] for i in index]
             if len(set(lab)) != len(lab):
                 raise IndexError("Duplicate labels along axis 0.")
-- 
2.43.0


From daf4f6869f4c19fb55d1ef32d9cfebb8a50192a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 22/54] fix: prod along an axis of integer and bool larrys

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 19d844d..bcf2fe5 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1167,7 +1167,7 @@ class larry(object):
         if idx.ndim == 0:
             if idx:
                 y = np.nan
-        else:
+        elif idx.any():
             np.putmask(y.x, idx, np.nan)
         return y
 
-- 
2.43.0


From c919bde3cedf853eefaa51b3f0bc632ee2efb740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 23/54] fix: reductions of empty integer and bool larrys give
 NaN

---
 la/deflarry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index bcf2fe5..55ecb0b 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1476,6 +1476,9 @@ class larry(object):
             else:
                 if op == np.any or op == np.all:
                     dtype = bool
+                elif self.dtype.kind in 'biu':
+                    # NaN cannot be stored in these dtypes
+                    dtype = float
                 else:
                     dtype = self.dtype
                 x = np.empty(shape, dtype=dtype)
-- 
2.43.0


From b50ad0f85400aeb853829f1e086ed4d07de6d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 24/54] fix: median of a 1d bool larry along its axis is not a
 0d larry

---
 la/deflarry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 55ecb0b..403658e 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1490,6 +1490,9 @@ class larry(object):
             x = op(self.x, **kwargs)
             if np.isscalar(x):
                 return x
+            elif x.ndim == 0:
+                # 0d larrys are not supported
+                return x[()]
             else:
                 label = self.copylabel()
                 label.pop(axis)
-- 
2.43.0


From c31b8629173d14137ff6f6cf886ea804f919c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 25/54] fix: inexact labelindex finds the nearest label when
 labels are not sorted

---
 la/deflarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 403658e..3832bf4 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2660,7 +2660,8 @@ class larry(object):
                 idx = [i for i, z in enumerate(self.label[axis]) if z <= name]
                 if len(idx) == 0:
                     raise IndexError('name not in label along axis %d' % axis)
-                index = max(idx)
+                label = self.label[axis]
+                index = max(idx, key=label.__getitem__)
         return index
 
     def maplabel(self, func, axis=None, copy=True):
-- 
2.43.0


From fceb24de819625672cf870bf95b1342f7a8200c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 26/54] fix: lix with an empty slice and another axis

---
 la/deflarry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 3832bf4..24cc4cc 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -5086,9 +5086,9 @@ class Lix(object):
                     index2.append(idx2)
                 elif typ == slice:
                     s = slicemaker(idx, y.labelindex, ax)
-                    slar = range(*s.indices(y.shape[ax]))
+                    slar = np.arange(*s.indices(y.shape[ax]))
                     lab = y.label[ax][s]
-                    if len(lab) > 1:
+                    if len(lab) != 1:
                         label.append(lab)
                     index2.append(slar)
                 elif isscalar(idx):
@@ -5145,9 +5145,9 @@ class Lix(object):
                     index2.append(idx2)
                 elif typ == slice:
                     s = slicemaker(idx, y.labelindex, ax)
-                    slar = range(*s.indices(y.shape[ax]))
+                    slar = np.arange(*s.indices(y.shape[ax]))
                     lab = y.label[ax][s]
-                    if len(lab) > 1:
+                    if len(lab) != 1:
                         label.append(lab)
                     index2.append(slar)
                 elif isscalar(idx):
-- 
2.43.0


From 946fbff3416ca625e6b02568ecefa37af81fa804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 27/54] fix: assigning a larry through a boolean larry matches
 the labels

---
 la/deflarry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 24cc4cc..ff22002 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2126,6 +2126,10 @@ class larry(object):
         """
         if isinstance(index, larry):
             if self.label == index.label:
+                if isinstance(value, larry):
+                    if self[index].label != value.label:
+                        raise IndexError('larrys are not aligned.')
+                    value = value.x
                 self.x[index.x] = value
             else:
                 # Could use morph to do this, if every row and column of self
-- 
2.43.0


From dd56cbd351c63a2ea9cf656474675bf41703618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 28/54] fix: assignment with a sequence and a scalar separated
 by a slice

---
 la/deflarry.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index ff22002..0c29b2e 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2142,11 +2142,20 @@ class larry(object):
                 # function that indexes into labels without indexing into x.
                 # Then use that function in getitem
                 if self[index].label == value.label:
-                    self.x[index] = value.x
+                    value = value.x
                 else:
                     raise IndexError('larrys are not aligned.')
-            else:
-                self.x[index] = value
+            x = self.x
+            if type(index) is tuple and type(x) is np.ndarray:
+                # Numpy moves the axis of a sequence to the front when the
+                # sequence and a scalar are separated by a slice
+                isscal = [isscalar(idx) for idx in index]
+                if not all(isscal):
+                    x = x[tuple([idx if z else slice(None)
+                                 for idx, z in zip(index, isscal)])]
+                    index = tuple([idx for idx, z in zip(index, isscal)
+                                   if not z])
+            x[index] = value
 
     def set(self, label, value):
         """
-- 
2.43.0


From 793d5fd3b64ef1d4aed767647e0b968fb8c29a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 29/54] fix: an assignment whose cast fails changes nothing

---
 la/deflarry.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 0c29b2e..9366b55 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2130,7 +2130,7 @@ class larry(object):
                     if self[index].label != value.label:
                         raise IndexError('larrys are not aligned.')
                     value = value.x
-                self.x[index.x] = value
+                self.x[index.x] = castvalue(value, self.x.dtype)
             else:
                 # Could use morph to do this, if every row and column of self
                 # is in index, but I think it is better to raise an IndexError
@@ -2155,7 +2155,7 @@ class larry(object):
                                  for idx, z in zip(index, isscal)])]
                     index = tuple([idx for idx, z in zip(index, isscal)
                                    if not z])
-            x[index] = value
+            x[index] = castvalue(value, x.dtype)
 
     def set(self, label, value):
         """
@@ -5174,15 +5174,21 @@ class Lix(object):
                     lab = [y.label[ax][i] for i in ix2]
                     if lab != value.label[ax]:
                         raise IndexError('larry labels are not aligned')
-                y.x[np.ix_(*index2)] = value.x
+                y.x[np.ix_(*index2)] = castvalue(value.x, y.x.dtype)
             else:
-                y.x[np.ix_(*index2)] = value
+                y.x[np.ix_(*index2)] = castvalue(value, y.x.dtype)
         elif isscalar(index):
             # Example: lar.lix[0]
             y[index] = value
         else:
             raise IndexError('Unsupported indexing operation.')
 
+def castvalue(value, dtype):
+    "Cast before assigning; a cast that fails halfway must not change cells."
+    if dtype == np.object_:
+        return value
+    return np.asarray(value, dtype)
+
 def slicemaker(index, labelindex, axis):
     "Convert a slice that may contain labels to a slice with indices."
     msg1 = 'The %s element of a slice must be a list or a scalar.'
-- 
2.43.0


From 7eb824f4c50c2e9029b9d951f83f5d4e2b540101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 30/54] fix: a 1d assignment that is refused changes nothing

---
 la/deflarry.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 9366b55..d088d3f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2130,7 +2130,7 @@ class larry(object):
                     if self[index].label != value.label:
                         raise IndexError('larrys are not aligned.')
                     value = value.x
-                self.x[index.x] = castvalue(value, self.x.dtype)
+                assign(self.x, index.x, value)
             else:
                 # Could use morph to do this, if every row and column of self
                 # is in index, but I think it is better to raise an IndexError
@@ -2155,7 +2155,7 @@ class larry(object):
                                  for idx, z in zip(index, isscal)])]
                     index = tuple([idx for idx, z in zip(index, isscal)
                                    if not z])
-            x[index] = castvalue(value, x.dtype)
+            assign(x, index, value)
 
     def set(self, label, value):
         """
@@ -5174,20 +5174,27 @@ class Lix(object):
                     lab = [y.label[ax][i] for i in ix2]
                     if lab != value.label[ax]:
                         raise IndexError('larry labels are not aligned')
-                y.x[np.ix_(*index2)] = castvalue(value.x, y.x.dtype)
+                assign(y.x, np.ix_(*index2), value.x)
             else:
-                y.x[np.ix_(*index2)] = castvalue(value, y.x.dtype)
+                assign(y.x, np.ix_(*index2), value)
         elif isscalar(index):
             # Example: lar.lix[0]
             y[index] = value
         else:
             raise IndexError('Unsupported indexing operation.')
 
-def castvalue(value, dtype):
-    "Cast before assigning; a cast that fails halfway must not change cells."
-    if dtype == np.object_:
-        return value
-    return np.asarray(value, dtype)
+def assign(x, index, value):
+    "x[index] = value, where an assignment that fails changes nothing."
+    if x.dtype != np.object_:
+        # Numpy casts element by element while it assigns
+        value = np.asarray(value, x.dtype)
+    if x.ndim == 1 and type(x) is np.ndarray:
+        # Numpy checks a 1d sequence and its values while it assigns
+        sub = x[index]
+        if type(sub) is np.ndarray:
+            sub[...] = value
+            value = sub
+    x[index] = value
 
 def slicemaker(index, labelindex, axis):
     "Convert a slice that may contain labels to a slice with indices."
-- 
2.43.0


From 3f181066ccd0755a2ed5b730779af77481fd42c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 31/54] fix: lastrank with a strong decay compared rounding
 errors

---
 la/farray/normalize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/la/farray/normalize.py b/la/farray/normalize.py
index 3d034fa..7a83919 100644
--- a/la/farray/normalize.py
+++ b/la/farray/normalize.py
@@ -98,14 +98,16 @@ def lastrank(x, axis=-1, decay=0.0):
         w = nt - np.ones(nt).cumsum()
         w = np.exp(-decay * w)
         w = nt * w / w.sum()
+        # The last element is not ranked against itself
+        w[-1] = 0
         matchdim = [None] * x.ndim 
         matchdim[axis] = slice(None)
         w = w[matchdim]
         g = ((x[indlast] > x) * w).sum(axis)
         e = ((x[indlast] == x) * w).sum(axis)
         n = (np.isfinite(x) * w).sum(axis)
-        r = (g + g + e - w.flat[-1]) / 2.0
-        r = r / (n - w.flat[-1])
+        r = (g + g + e) / 2.0
+        r = r / n
     elif decay < 0:
         raise ValueError('decay must be greater than or equal to zero.')
     else:
-- 
2.43.0


From 4b6b2524d5e0d75b0e5c6283e5cf22df091b9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 32/54] fix: groups of mixed types and tuples are kept apart

---
 la/farray/group.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/la/farray/group.py b/la/farray/group.py
index a92ed0f..f39ca74 100644
--- a/la/farray/group.py
+++ b/la/farray/group.py
@@ -44,13 +44,13 @@ def group_ranking(x, groups, norm='-1,1', axis=0):
     # Find set of unique groups
     ugroups = unique_group(groups)
     
-    # Convert groups to a numpy array
-    groups = np.asarray(groups)
+    # Number the groups; np.asarray would mix up groups of different types
+    groups = _group_number(groups, ugroups)
   
     # Loop through unique groups and normalize
     xnorm = np.nan * np.zeros(x.shape)
-    for group in ugroups:
-        idx = groups == group
+    for i in range(len(ugroups)):
+        idx = groups == i
         idxall = [slice(None)] * x.ndim
         idxall[axis] = idx
         xnorm[idxall] = ranking(x[idxall], axis=axis, norm=norm) 
@@ -81,13 +81,13 @@ def group_mean(x, groups, axis=0):
     # Find set of unique groups
     ugroups = unique_group(groups)
     
-    # Convert groups to a numpy array
-    groups = np.asarray(groups)    
+    # Number the groups; np.asarray would mix up groups of different types
+    groups = _group_number(groups, ugroups)
   
     # Loop through unique groups and normalize
     xmean = np.nan * np.zeros(x.shape)    
-    for group in ugroups:
-        idx = groups == group
+    for i in range(len(ugroups)):
+        idx = groups == i
         idxall = [slice(None)] * x.ndim
         idxall[axis] = idx
         if idx.sum() > 0:
@@ -120,13 +120,13 @@ def group_median(x, groups, axis=0):
     # Find set of unique groups
     ugroups = unique_group(groups)
     
-    # Convert groups to a numpy array
-    groups = np.asarray(groups)    
+    # Number the groups; np.asarray would mix up groups of different types
+    groups = _group_number(groups, ugroups)
   
     # Loop through unique groups and normalize
     xmedian = np.nan * np.zeros(x.shape)
-    for group in ugroups:
-        idx = groups == group
+    for i in range(len(ugroups)):
+        idx = groups == i
         idxall = [slice(None)] * x.ndim
         idxall[axis] = idx
         if idx.sum() > 0:
@@ -142,3 +142,8 @@ def unique_group(groups):
     ugroups = list(ugroups)
     ugroups.sort()
     return ugroups    
+
+def _group_number(groups, ugroups):
+    """Position in `ugroups` of each element of `groups` (-1: no group)."""
+    number = dict([(g, i) for i, g in enumerate(ugroups) if g == g])
+    return np.array([number.get(g, -1) for g in groups], dtype=int)
-- 
2.43.0


From 4ada280f9ae470a42fbd6ed730a9bef526b056b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 33/54] fix: labels that the archive would change are refused

---
 la/io.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/la/io.py b/la/io.py
index 4377023..f712d4f 100644
--- a/la/io.py
+++ b/la/io.py
@@ -697,6 +697,15 @@ def _larry2arrays(lar):
         if x.ndim != 1:
             msg = 'Elements of a label must be of a type supported by HDF5.'
             raise TypeError(msg)
+        if datetime_type == 'not_datetime' and x.size > 0:
+            # Numpy drops trailing nulls from strings and may convert long
+            # integers to floats
+            label0 = lar.label[i][0]
+            if (isinstance(label0, str) and x.tolist() != lar.label[i]) or \
+               (x.dtype.kind == 'f' and
+                not isinstance(label0, (float, np.floating))):
+                msg = 'The label elements of axis %d cannot be archived.'
+                raise TypeError(msg % i)
         data.append((str(i), x, datetime_type))
     for name, x, datetime_type in data:
         # Raises TypeError if dtype is not supported by HDF5
-- 
2.43.0


From 904dd88f2fb0f281da6248bd24dde02f398cb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 34/54] fix: keys of an archive are of type str, so that clear
 works

---
 la/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/io.py b/la/io.py
index f712d4f..bf89727 100644
--- a/la/io.py
+++ b/la/io.py
@@ -679,6 +679,9 @@ def archive_directory(file):
     keys = []
     def append_larrys(name, obj):
         if _is_archived_larry(obj):
+            if not isinstance(name, str):
+                # Python 2 and h5py >= 2: key must be of type str
+                name = name.encode('utf-8')
             keys.append(name)
     try:
         f.visititems(append_larrys)
-- 
2.43.0


From b06fbf0aecf8af2fbc09ea705c4248d413e061cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 35/54] fix: overwriting an archived larry with a subclass of
 larry lost the larry

---
 la/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index bf89727..a402511 100644
--- a/la/io.py
+++ b/la/io.py
@@ -441,7 +441,7 @@ def save(file, lar, key):
     """
 
     # Check input
-    if type(lar) != larry:
+    if not isinstance(lar, larry):
         raise TypeError('lar must be a larry.')
     if type(key) != str:
         raise TypeError('key must be a string.')
-- 
2.43.0


From 1c0f1aef4acd622d79aa80a1a3eb98544d178ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 36/54] fix: an interrupted delete left datasets that kept the
 key from being used again

---
 la/io.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/la/io.py b/la/io.py
index a402511..280a56e 100644
--- a/la/io.py
+++ b/la/io.py
@@ -459,6 +459,8 @@ def save(file, lar, key):
 
         # Save larry
         fkey = f[key]
+        for name in _debris(fkey):
+            del fkey[name]
         try:
             for name, x, datetime_type in data:
                 fkey[name] = x
@@ -596,11 +598,13 @@ def delete(file, key):
 
         # Delete; there may be other larrys inside the group
         group = f[key]
-        for name in _dataset_names(group):
-            del group[name]
-        del group.attrs['larry']
-        if len(group) == 0:
+        names = _dataset_names(group)
+        if len(group) == len(names):
             del f[key]
+        else:
+            for name in names:
+                del group[name]
+            del group.attrs['larry']
 
     finally:
         # Close if file is a filename
@@ -730,6 +734,7 @@ def _check_save(f, data, key, overwrite=False):
     used = set(f[key].keys())
     if overwrite and _is_archived_larry(f[key]):
         used -= set(_dataset_names(f[key]))
+    used -= set(_debris(f[key]))
     for name, x, datetime_type in data:
         if name in used:
             msg = '%s already exists in the archive.'
@@ -739,6 +744,13 @@ def _dataset_names(group):
     "Names of the datasets of an archived larry."
     return ['x'] + [str(i) for i in range(len(group['x'].shape))]
 
+def _debris(group):
+    "Names of the datasets left behind by a delete that did not finish."
+    if 'larry' not in group.attrs or _is_archived_larry(group):
+        return []
+    return [name for name in group.keys() if (name == 'x' or name.isdigit())
+            and isinstance(group[name], h5py.Dataset)]
+
 def _load_label(file, key):
     "Load larry labels from archive given the hpy5.Group object of the larry."
     f, opened = _openfile(file)
-- 
2.43.0


From 548fe1f71804afd068ff2c716556bbb9900d2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 37/54] fix: lara indexing with negative elements of a sequence
 and with 1d arrays

---
 la/io.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/la/io.py b/la/io.py
index 280a56e..1102d81 100644
--- a/la/io.py
+++ b/la/io.py
@@ -7,7 +7,7 @@ import sys
 import numpy as np
 import h5py
 from la.external.prettytable import indent
-from la.util.misc import randstring
+from la.util.misc import isscalar, randstring
 
 from la import larry
 
@@ -338,6 +338,7 @@ class lara(object):
         if type(index) in (list, np.ndarray, larry):
             # The larry code for these expects self.x to be a Numpy array
             index = (index,) + (slice(None),) * (self.ndim - 1)
+        index = _h5index(index, self.shape)
         x = self.x
         f = h5py.File(self.filename, 'r')
         try:
@@ -352,7 +353,9 @@ class lara(object):
         f = h5py.File(self.filename)
         try:
             self.x = f[self.key]['x']
-            self._larry_setitem(index, value)
+            if type(index) in (list, np.ndarray):
+                index = (index,)
+            self._larry_setitem(_h5index(index, self.x.shape), value)
         finally:
             self.x = None
             f.close()
@@ -801,6 +804,21 @@ def _list2array(x):
         dtype = ','.join(["i4" for i in range(len(x[0]))])
     return np.asarray(x, dtype=dtype), datetime_type
 
+def _h5index(index, shape):
+    "Convert index to one that means the same for h5py and Numpy."
+    if type(index) is tuple:
+        index = index + (slice(None),) * (len(shape) - len(index))
+        return tuple([_h5index(idx, (n,)) for idx, n in zip(index, shape)]) \
+               + index[len(shape):]
+    if type(index) is np.ndarray and index.ndim == 1 and \
+       index.dtype.kind in 'iu':
+        index = index.tolist()
+    if type(index) is list:
+        # h5py doesn't count negative elements from the end
+        n = shape[0]
+        index = [i + n if isscalar(i) and -n <= i < 0 else i for i in index]
+    return index
+
 def _openfile(file):
     """
     Open an archive if input is a path.
-- 
2.43.0


From 3d35c7d252a5cec11fa3968804475a5740a241b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 38/54] fix: keep_x with values of another type and with str,
 bool data

---
 la/deflarry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index d088d3f..906f7b6 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2559,8 +2559,15 @@ class larry(object):
         if op not in ops:
             raise ValueError('Unknown op')
         y = self.copy()
-        idx = eval('y.x ' + op + ' value')
-        y.x[~idx] = np.nan
+        idx = np.empty(y.shape, dtype=bool)
+        idx[...] = eval('y.x ' + op + ' value')
+        if y.dtype == np.bool_:
+            msg = 'Missing values are not supported for bool dtype.'
+            raise TypeError(msg)
+        elif np.issubdtype(y.dtype, str):
+            y.x[~idx] = ''
+        else:
+            y.x[~idx] = np.nan
         if vacuum:
             y = y.vacuum()
         return y
-- 
2.43.0


From 40edb1537a26dc25b52cec199255d960dbffa6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 39/54] fix: push keeps the imaginary part of complex values

---
 la/farray/normalize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/farray/normalize.py b/la/farray/normalize.py
index 7a83919..3920613 100644
--- a/la/farray/normalize.py
+++ b/la/farray/normalize.py
@@ -208,7 +208,8 @@ def push(x, n, axis=-1):
     if y.ndim == 1:
         y = y[None, :]
     fidx = np.isfinite(y)
-    recent = np.nan * np.ones(y.shape[:-1])  
+    recent = np.nan * np.ones(y.shape[:-1],
+                              dtype=np.result_type(y, np.float64))
     count = np.nan * np.ones(y.shape[:-1])          
     for i in range(y.shape[-1]):
         idx = (i - count) > n
-- 
2.43.0


From 868225bcb8fa96cc008b1d55a04a2c63c12f06f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 40/54] fix: correlation along an axis of integers and data
 with NaNs

---
 la/farray/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/la/farray/misc.py b/la/farray/misc.py
index 09636b2..da01c6b 100644
--- a/la/farray/misc.py
+++ b/la/farray/misc.py
@@ -95,8 +95,9 @@ def correlation(arr1, arr2, axis=None):
             num = (x1 * x2).sum()
             den = np.sqrt((x1**2).sum() * (x2**2).sum()) 
         else:
-            x1 = arr1.copy()
-            x2 = arr2.copy()
+            # Dtypes such as int cannot hold NaNs
+            x1 = arr1.astype(np.result_type(arr1, np.float32))
+            x2 = arr2.astype(np.result_type(arr2, np.float32))
             np.putmask(x1, mask, np.nan)
             np.putmask(x2, mask, np.nan)
             if axis == 0:
-- 
2.43.0


From 2471230513126f86a90acd1ffea4afc442e01d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 41/54] fix: panel of larrys with an axis of length zero

---
 la/flarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index fc88bc4..991cbf8 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1483,7 +1483,7 @@ def panel(lar):
         raise ValueError("lar must be 3d.")
     y = lar.copy()
     y.label = [flattenlabel([y.label[1], y.label[2]])[0], y.label[0]]
-    y.x = y.x.T.reshape(-1, y.shape[0], order="F")
+    y.x = y.x.T.reshape(len(y.label[0]), y.shape[0], order="F")
     return y
 
 def cov(lar):
-- 
2.43.0


From 9d75ea4c397d052ddfdba7ab91734354a0f873ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 42/54] fix: stack keeps the imaginary part of complex larrys

---
 la/flarry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index 991cbf8..ae8f99e 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1410,7 +1410,10 @@ def stack(mode, **kwargs):
         raise ValueError('mode must be union or intersection')
     row = logic(0, *kwargs.values())
     col = logic(1, *kwargs.values())
-    x = np.zeros((len(kwargs), len(row), len(col)))
+    dtype = float
+    if np.any([np.iscomplexobj(kwargs[key].x) for key in kwargs]):
+        dtype = complex
+    x = np.zeros((len(kwargs), len(row), len(col)), dtype)
     zlabel = []
     keys = sorted(kwargs.keys())
     for i, key in enumerate(keys):
-- 
2.43.0


From b1cc234119dcc6960324fa45ee3ea24ae47afa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:24 +0000
Subject: [PATCH 43/54] fix: lrange refuses negative dimensions

---
 la/flarry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/flarry.py b/la/flarry.py
index ae8f99e..aaf918a 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1867,6 +1867,8 @@ def lrange(shape=None, label=None, start=0, step=1, dtype=None):
     else:
         if shape is None:
            raise ValueError("Either `label` or `shape` must be supplied.")
+    if np.any(np.less(shape, 0)):
+        raise ValueError("negative dimensions are not allowed")
     total = np.product(shape)
     data = np.arange(start=start, stop=step*total+start, step=step,
                      dtype=dtype).reshape(shape)
-- 
2.43.0


From 1b5f874545056c467aef64172c5b6f45f712d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 44/54] fix: quotes of tickers without data

---
 la/data/yahoo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/la/data/yahoo.py b/la/data/yahoo.py
index b5bef92..37b4bd3 100644
--- a/la/data/yahoo.py
+++ b/la/data/yahoo.py
@@ -114,8 +114,13 @@ def quotes(tickers, date1=None, date2=None, adjust=True, verbose=False):
     for ticker in tickers:
         if verbose:
             print("\t" + ticker)
-        data, dates = quotes_historical_yahoo(ticker, date1, date2)
-        data = np.array(data).T
+        answer = quotes_historical_yahoo(ticker, date1, date2)
+        if answer is None:
+            # There are no quotes for this ticker
+            data, dates = np.zeros((len(items), 0)), []
+        else:
+            data, dates = answer
+            data = np.array(data).T
         qlar = la.larry(data, [items, dates])
         qlar = qlar.insertaxis(0, ticker)
         if lar is None:
-- 
2.43.0


From 80cf13195451b4493d4c295b7ddee70752baaa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 45/54] fix: assert_iscopy missed labels shared across axes

---
 la/util/testing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/la/util/testing.py b/la/util/testing.py
index c2a9cb7..ec62811 100644
--- a/la/util/testing.py
+++ b/la/util/testing.py
@@ -217,9 +217,11 @@ def assert_iscopy(larry1, larry2):
     msg = []    
     if np.may_share_memory(larry1.x, larry2.x):
         msg.append('The data arrays share a reference.')
-    for i in range(min(larry1.ndim, larry2.ndim)):
-        if larry1.label[i] is larry2.label[i]:
-            msg.append('The labels along axis %d share a reference.' % i)
+    for i in range(larry1.ndim):
+        for j in range(larry2.ndim):
+            if larry1.label[i] is larry2.label[j]:
+                msg.append('The labels along axis %d share a reference.' % i)
+                break
     if len(msg) > 0:
         msg.insert(0, '\n')
         msg = '\n'.join(msg)
-- 
2.43.0


From 764d582e4298d53a1455bcb17b35fe223e6431d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 46/54] fix: power refuses str dtype and arrays of another
 shape

---
 la/deflarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 906f7b6..1cc7d2f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -272,7 +272,8 @@ class larry(object):
         """
         x = np.power(self.x, q)
         label = self.copylabel()
-        return larry(x, label, validate=False)
+        # The shape of x differs if q is an array or if there is no power
+        return larry(x, label, validate=(np.shape(x) != self.shape))
 
     def __pow__(self, q):
         """
-- 
2.43.0


From c0032cbe2e3c787e9e8484f71110f38c17d5097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 47/54] fix: clip of str data and of integers by limits that
 are not integers

---
 la/deflarry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 1cc7d2f..aa91435 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -459,9 +459,10 @@ class larry(object):
         """
         if lo > hi:
             raise ValueError('lo should be less than or equal to hi')
-        y = self.copy()
-        y.x.clip(lo, hi, y.x)
-        return y
+        if self.dtype.kind == 'S':
+            raise TypeError('Only numbers can be clipped.')
+        # The limits might not fit in the dtype, for example clip int by 0.5
+        return larry(self.x.clip(lo, hi), self.copylabel())
 
     def __neg__(self):
         "Return a copy with each element switched with its negative."
-- 
2.43.0


From 665969e0c318ae87e064dab044f1de0f048ea343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 48/54] fix: binaryop refuses results whose shape does not
 match the labels

---
 la/flarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index aaf918a..2044b7d 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -803,7 +803,8 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     # Binary function
     x = func(x1, x2, **kwargs)
 
-    return larry(x, label, validate=False)
+    # The labels are fine but `func` might have changed the shape
+    return larry(x, label, validate=(np.shape(x) != x1.shape))
 
 def add(lar1, lar2, join='inner', cast=True, missone='ignore',
         misstwo='ignore'):
-- 
2.43.0


From 61db67a567a13d54e5c8f5417062d1bc2cf6c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 49/54] fix: quantile put values on the edge of a bin in the
 wrong bin when the edge was not exact

---
 la/farray/normalize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/la/farray/normalize.py b/la/farray/normalize.py
index 3920613..cc28876 100644
--- a/la/farray/normalize.py
+++ b/la/farray/normalize.py
@@ -233,8 +233,7 @@ def _quantileraw1d(xi, q):
     if nx:
         jdx = xi.argsort(axis=0).argsort(axis=0)
         mdx = np.nan * jdx
-        kdx = 1.0 * (nx - 1) / (q) * np.ones((q, 1))
-        kdx = kdx.cumsum(axis=0)
+        kdx = 1.0 * (nx - 1) * np.arange(1, q + 1)[:,None] / q
         kdx = np.concatenate((-1 * np.ones((1, kdx.shape[1])), kdx), 0)
         kdx[-1, 0] = nx
         for j in range(1, q+1):
-- 
2.43.0


From bb19d7756a0ae4590b6fa4194aaedbb153895c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 50/54] fix: repack lost the attributes of the archive file

---
 la/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/la/io.py b/la/io.py
index 1102d81..604fde4 100644
--- a/la/io.py
+++ b/la/io.py
@@ -640,6 +640,8 @@ def repack(file):
         try:
             for key in f1.keys():
                 f1.copy(key, f2)
+            for name, value in f1.attrs.items():
+                f2.attrs[name] = value
         finally:
             f2.close()
     except:
-- 
2.43.0


From 2df803b6059f3c735c6445322b5733052f9ad8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:37 +0000
Subject: [PATCH 51/54] fix: lastrank gave ranks outside -1..1 when a lane
 holds infinite values

---
 la/farray/normalize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/farray/normalize.py b/la/farray/normalize.py
index cc28876..4b58f87 100644
--- a/la/farray/normalize.py
+++ b/la/farray/normalize.py
@@ -105,7 +105,7 @@ def lastrank(x, axis=-1, decay=0.0):
         w = w[matchdim]
         g = ((x[indlast] > x) * w).sum(axis)
         e = ((x[indlast] == x) * w).sum(axis)
-        n = (np.isfinite(x) * w).sum(axis)
+        n = (~np.isnan(x) * w).sum(axis)
         r = (g + g + e) / 2.0
         r = r / n
     elif decay < 0:
@@ -114,15 +114,15 @@ def lastrank(x, axis=-1, decay=0.0):
         # Special case the most common case, decay = 0, for speed
         g = (x[indlast] > x).sum(axis)
         e = (x[indlast] == x).sum(axis)
-        n = np.isfinite(x).sum(axis)
+        n = (~np.isnan(x)).sum(axis)
         r = (g + g + e - 1.0) / 2.0
         r = r / (n - 1.0)      
     r = 2.0 * (r - 0.5)    
     if x.ndim == 1:
-        if not np.isfinite(x[indlast2]):
+        if np.isnan(x[indlast2]):
             r = np.nan
     else:
-        np.putmask(r, ~np.isfinite(x[indlast2]), np.nan)
+        np.putmask(r, np.isnan(x[indlast2]), np.nan)
     return r    
 
 def ranking(x, axis=0, norm='-1,1'):
-- 
2.43.0


From d467c9d952235d25920bc4a2e16a44e71a5701ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:13 +0000
Subject: [PATCH 52/54] fix: demedian along the last axis of 1d larrys of
 narrow types

---
 la/farray/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/farray/normalize.py b/la/farray/normalize.py
index 4b58f87..f1f0d86 100644
--- a/la/farray/normalize.py
+++ b/la/farray/normalize.py
@@ -350,7 +350,7 @@ def demedian(arr, axis=None):
     
     """
     marr = bn.nanmedian(arr, axis) 
-    if (axis != 0) and (not axis is None) and (not np.isscalar(marr)):
+    if (axis != 0) and (not axis is None) and (np.ndim(marr) > 0):
         ind = [slice(None)] * arr.ndim
         ind[axis] = np.newaxis
         marr =  marr[ind]
-- 
2.43.0


From 45529804a0673d373bd3dcb8daecdae47ba25305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:21 +0000
Subject: [PATCH 53/54] fix: lix shared the caller's lists of labels with the
 result

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index aa91435..2b18f75 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -5104,7 +5104,7 @@ class Lix(object):
                 if typ == list:
                     idx2 = labels2indices(y.label[ax], idx)
                     if len(idx) > 1:
-                        label.append(idx)
+                        label.append(list(idx))
                     index2.append(idx2)
                 elif typ == slice:
                     s = slicemaker(idx, y.labelindex, ax)
-- 
2.43.0


From 790a9d02eb02900aa363ca364af9676fc1b72c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:21 +0000
Subject: [PATCH 54/54] fix: repack followed the links of the archive instead
 of keeping them

---
 la/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index 604fde4..312799e 100644
--- a/la/io.py
+++ b/la/io.py
@@ -639,7 +639,12 @@ def repack(file):
         f2 = h5py.File(filename2)
         try:
             for key in f1.keys():
-                f1.copy(key, f2)
+                link = f1.get(key, getlink=True)
+                if isinstance(link, h5py.HardLink):
+                    f1.copy(key, f2)
+                else:
+                    # Copying would follow the link
+                    f2[key] = link
             for name, value in f1.attrs.items():
                 f2.attrs[name] = value
         finally:
-- 
2.43.0

