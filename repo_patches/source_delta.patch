From 3766ab9d2fcf9028a45cb0fd8077ebb7a61c84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:33 +0000
Subject: [PATCH 001/127] fix: bool_to_fancy (and where(mask)) ignored the
 strides of a non-contiguous mask

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 85406da..27dda22 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5491,6 +5491,9 @@ def bool_to_fancy(arr: np.ndarray, both: bool = False) -> FastArray:
     """
     if isinstance(arr, np.ndarray):
         if arr.dtype.char == "?":
+            # the C++ kernel walks the buffer without looking at the strides
+            if not arr.flags.c_contiguous:
+                arr = arr.copy()
             return rc.BooleanToFancy(arr, both=both)
         else:
             raise TypeError(f"Input array must be boolean. Got {arr.dtype}")
-- 
2.43.0


From 557a03b7262b2abf4f428b575cb233f471008425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:01 +0000
Subject: [PATCH 002/127] fix: nansum/mean/min/... of a strided FastArray were
 treated as reductions over an empty array

---
 riptable/rt_fastarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index e65efcc..6c4a182 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2152,7 +2152,9 @@ class FastArray(np.ndarray):
             result = npFunc(self._np, *args, **kwargs)
             return result
 
-        result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
+        # the C++ reductions punt (return None) on a strided array, which must not be mistaken for an empty one
+        arr = self if self.flags.c_contiguous else self.copy()
+        result = TypeRegister.MathLedger._REDUCE(arr, reduceFunc)
 
         # It's possible there was no result returned from the reduction function;
         # e.g. if the input was empty. If the function being called is well-defined
-- 
2.43.0


From 6bee2456c2d25638311f1ab5c4a695bbda2c7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:01 +0000
Subject: [PATCH 003/127] fix: astype of a strided FastArray lost the integer
 invalids

---
 riptable/rt_fastarray.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 6c4a182..20de290 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1415,11 +1415,14 @@ class FastArray(np.ndarray):
         # 19 = UNICODE string
         to_num = np.dtype(dtype).num
 
-        # check for contiguous in one or two dimensions
-        if self.flags.f_contiguous or self.flags.c_contiguous:
-            if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+        if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+            # check for contiguous in one or two dimensions
+            if self.flags.f_contiguous or self.flags.c_contiguous:
                 # perform a safe conversion understanding sentinels
                 return TypeRegister.MathLedger._AS_FA_TYPE(self, to_num)
+            if self.ndim == 1:
+                # the conversion needs contiguous data to recognize the sentinels
+                return TypeRegister.MathLedger._AS_FA_TYPE(self.copy(), to_num)
 
         # punt to numpy
         result = TypeRegister.MathLedger._ASTYPE(super(FastArray, self), dtype, order, casting, subok, copy)
-- 
2.43.0


From 206098532ea39285b8b532ed04349ffba0d76ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:29 +0000
Subject: [PATCH 004/127] fix: ufuncs and where() on strided operands no longer
 bypass invalid handling / the strides of the condition

---
 riptable/rt_fastarray.py | 8 ++++++++
 riptable/rt_numpy.py     | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 20de290..a83527e 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4754,6 +4754,14 @@ class FastArray(np.ndarray):
         args: List[Any] = []
         for input in inputs:
             if isinstance(input, np.ndarray):
+                if (
+                    method == "__call__"
+                    and input.ndim == 1
+                    and not input.flags.c_contiguous
+                    and input.dtype.char in NumpyCharTypes.Supported
+                ):
+                    # same values in a layout the fast path understands, so that sentinels are still recognized
+                    input = np.ascontiguousarray(input)
                 is_not_supported = self._is_not_supported(input)
                 if is_not_supported:
                     # TODO enable this warning in a future minor release
diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 27dda22..5941e57 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -3072,6 +3072,10 @@ def where(condition, x=None, y=None) -> FastArray | tuple[FastArray, ...]:
         # NOTE: believe numpy just flips it to boolean using astype, where object arrays handled differently with None and 0
         condition = condition != 0
 
+    if not condition.flags.c_contiguous:
+        # the C++ kernel walks the buffer without looking at the strides
+        condition = condition.copy()
+
     # this is the normal 3 argument where
 
     # see if we can accelerate where
-- 
2.43.0


From 7a135ee59cb9683b698a43a9e0b8381b9c75b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:47 +0000
Subject: [PATCH 005/127] fix: handle strided arrays in the ledger's reduce, so
 rt.nanmin/nanmax accept them too

---
 riptable/rt_fastarray.py | 4 +---
 riptable/rt_ledger.py    | 3 +++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index a83527e..842cfdf 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2155,9 +2155,7 @@ class FastArray(np.ndarray):
             result = npFunc(self._np, *args, **kwargs)
             return result
 
-        # the C++ reductions punt (return None) on a strided array, which must not be mistaken for an empty one
-        arr = self if self.flags.c_contiguous else self.copy()
-        result = TypeRegister.MathLedger._REDUCE(arr, reduceFunc)
+        result = TypeRegister.MathLedger._REDUCE(self, reduceFunc)
 
         # It's possible there was no result returned from the reduction function;
         # e.g. if the input was empty. If the function being called is well-defined
diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index dc9687f..4a7d978 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -224,6 +224,9 @@ class MathLedger(Struct):
         if cls.Verbose > 1:
             print(f"reduce ledger {arg1} {reduceFunc}")
             # if cls.Verbose > 2:   cls._TRACEBACK(rc.Reduce)
+        if arg1.ndim == 1 and not arg1.flags.c_contiguous:
+            # rc.Reduce punts (returns None) on a strided array, which callers would mistake for an empty one
+            arg1 = arg1.copy()
         return cls._FUNNEL_ALL(rc.Reduce, arg1, reduceFunc)
 
     @classmethod
-- 
2.43.0


From 33390634b6dfba7ba7737e285c40e918a041f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:15 +0000
Subject: [PATCH 006/127] fix: restrict the contiguous copy of strided ufunc
 operands to binary ufuncs

---
 riptable/rt_fastarray.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 842cfdf..c85e666 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4754,6 +4754,7 @@ class FastArray(np.ndarray):
             if isinstance(input, np.ndarray):
                 if (
                     method == "__call__"
+                    and ufunc.nin == 2
                     and input.ndim == 1
                     and not input.flags.c_contiguous
                     and input.dtype.char in NumpyCharTypes.Supported
-- 
2.43.0


From eef738c1a91beb54d3a3331196be17cde9dea94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:32 +0000
Subject: [PATCH 007/127] fix: np.invert(int_array, out=...) raised
 AttributeError

---
 riptable/rt_ledger.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_ledger.py b/riptable/rt_ledger.py
index 4a7d978..0d1a241 100644
--- a/riptable/rt_ledger.py
+++ b/riptable/rt_ledger.py
@@ -241,12 +241,13 @@ class MathLedger(Struct):
     def _BASICMATH_ONE_INPUT(cls, tupleargs, fastfunction, final_num):
         if fastfunction == MATH_OPERATION.BITWISE_NOT:
             # speed up this common operation
-            if isinstance(tupleargs, tuple) and tupleargs[0].dtype == bool:
-                return cls._BASICMATH_TWO_INPUTS(
-                    (tupleargs[0], True, tupleargs[1]),
-                    MATH_OPERATION.BITWISE_XOR,
-                    final_num,
-                )
+            if isinstance(tupleargs, tuple):
+                if tupleargs[0].dtype == bool:
+                    return cls._BASICMATH_TWO_INPUTS(
+                        (tupleargs[0], True, tupleargs[1]),
+                        MATH_OPERATION.BITWISE_XOR,
+                        final_num,
+                    )
             elif tupleargs.dtype == bool:
                 return cls._BASICMATH_TWO_INPUTS((tupleargs, True), MATH_OPERATION.BITWISE_XOR, final_num)
 
-- 
2.43.0


From 82e27ecba73be9f90825a07eb5b7921f700f1d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:11 +0000
Subject: [PATCH 008/127] fix: nansum/mean/var/... of a 2-d FastArray ignored
 axis=0

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index c85e666..f557de1 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -3176,7 +3176,8 @@ class FastArray(np.ndarray):
 
         if dtype is not None:
             kwargs["dtype"] = dtype
-        if axis:
+        # axis=0 of a one-dimensional array is the plain reduction
+        if axis is not None and not (axis == 0 and self.ndim == 1):
             kwargs["axis"] = axis
         if keepdims:
             kwargs["keepdims"] = keepdims
-- 
2.43.0


From 6916308e433f9b57b943e3147cea9e48b434f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:11 +0000
Subject: [PATCH 009/127] fix: sum/min/max of a strided integer FastArray lost
 the invalids

---
 riptable/rt_fastarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index f557de1..9b82bea 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -4754,7 +4754,7 @@ class FastArray(np.ndarray):
         for input in inputs:
             if isinstance(input, np.ndarray):
                 if (
-                    method == "__call__"
+                    method in ("__call__", "reduce")
                     and ufunc.nin == 2
                     and input.ndim == 1
                     and not input.flags.c_contiguous
-- 
2.43.0


From 9320f20092ee90d4d473cb80b5a992bbc1f90377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:48 +0000
Subject: [PATCH 010/127] fix: assigning through a strided boolean mask wrote
 the wrong elements

---
 riptable/rt_fastarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 9b82bea..ed664dd 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1282,6 +1282,9 @@ class FastArray(np.ndarray):
 
             # check for boolean array since we do not handle fancy index yet
             if isinstance(fld, np.ndarray) and fld.dtype.num == 0:
+                if fld.ndim == 1 and not fld.flags.c_contiguous:
+                    # rc.SetItem walks the mask without looking at its strides
+                    fld = fld.copy()
                 is_unsupported = self._is_not_supported(newvalue)
                 if is_unsupported:
                     # make it contiguous, in case that's the problem?
-- 
2.43.0


From f6e415a31b1ee476958da7e532410c6231e7bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:45 +0000
Subject: [PATCH 011/127] fix: assigning to a strided array through a boolean
 mask wrote outside the addressed elements

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index ed664dd..5a77aa0 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1293,7 +1293,8 @@ class FastArray(np.ndarray):
                     is_unsupported = self._is_not_supported(newvalue)
 
                 # if supported, call our setitem, it will return False if it fails
-                if not is_unsupported:
+                # (it would write to the wrong addresses of a strided array)
+                if not is_unsupported and (self.flags.c_contiguous or self.flags.f_contiguous):
                     if rc.SetItem(self, fld, newvalue):
                         return
             try:
-- 
2.43.0


From 5d62a25e026dd641dfa623b1cc4df47ab03fcd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:33 +0000
Subject: [PATCH 012/127] fix: indexing a string array with an unsigned index
 array of length 1 crashed

---
 riptable/rt_fastarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 5a77aa0..8f70d4c 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1327,6 +1327,9 @@ class FastArray(np.ndarray):
             if fld.dtype.char in NumpyCharTypes.AllInteger and self.dtype.char in NumpyCharTypes.SupportedAlternate:
                 if self.flags.f_contiguous and fld.flags.f_contiguous:
                     if len(self.shape) == 1:
+                        if self.dtype.char in "SU" and fld.dtype.kind == "u":
+                            # rc.MBGet can crash on string data with an unsigned index
+                            fld = FastArray.astype(fld, np.int64)
                         return TypeRegister.MathLedger._MBGET(self, fld)
 
             # Workaround for indexing a 2d FastArray with invalid indices (eg produced by merge functions)
-- 
2.43.0


From e9048d9bb06fa318466231f8ae6637a6fca2fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:24 +0000
Subject: [PATCH 013/127] fix: pickling a strided or multi-dimensional
 FastArray raised ValueError

---
 riptable/rt_fastarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 8f70d4c..a47771d 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -860,7 +860,8 @@ class FastArray(np.ndarray):
             return (cls._load_from_sds_meta_data, (name, self.view(FastArray), tups[1], tups[0]))
 
         # set to true to turn compression on
-        if cls.CompressPickle and len(self) > 0:
+        # (the compressor accepts only contiguous, one-dimensional arrays)
+        if cls.CompressPickle and len(self) > 0 and self.strides == (self.itemsize,):
             # create a single compressed array of uint8
             carr = rc.CompressDecompressArrays([self], 0)[0]
             return (FA_FROM_UINT8, (carr.view(np.ndarray),))
-- 
2.43.0


From 1aeae4727426882657c43d181242e8258742bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:10 +0000
Subject: [PATCH 014/127] fix: pickling an unnamed Categorical with filtered
 values raised TypeError

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index a47771d..74e230b 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -854,6 +854,8 @@ class FastArray(np.ndarray):
             try:
                 name = self._name
             except:
+                name = None
+            if name is None:
                 name = "unknown"
 
             tups = self._build_sds_meta_data(name)
-- 
2.43.0


From b785572ecb14f5b7e6f63b7ee860c1cfc3ceffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:10 +0000
Subject: [PATCH 015/127] fix: copy.copy/copy.deepcopy of a Categorical lost
 its categories

---
 riptable/rt_categorical.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index bb110d5..e8bb1ba 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3181,6 +3181,14 @@ class Categorical(GroupByOps, FastArray):
         """
         _copy_name(self, cat_copy)
 
+    # -------------------------------------------------------------------------
+    def __copy__(self):
+        # ndarray.__copy__ would return an array without its categories
+        return self.copy(deep=False)
+
+    def __deepcopy__(self, memo):
+        return self.copy(deep=True)
+
     # -------------------------------------------------------------------------
     def copy(
         self,
-- 
2.43.0


From f271f606d397bff1609f669d5ea4b95edf683ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:39 +0000
Subject: [PATCH 016/127] fix: where() with a float scalar and an 8-bit integer
 array turned the invalids into numbers

---
 riptable/rt_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 5941e57..0708b1f 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -370,6 +370,10 @@ def get_common_dtype(x, y) -> np.dtype:
         else:
             common = type2
 
+    if common.char == "e" and np.float16 not in (getattr(x, "dtype", None), getattr(y, "dtype", None)):
+        # an 8-bit integer array and a float scalar: half floats have no safe conversion, so the invalids would be lost
+        common = np.dtype(np.float64)
+
     if common.char != "O":
         return common
 
-- 
2.43.0


From 98712cc1a4b1a2ef982804d14d1da67d7fbafe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:02 +0000
Subject: [PATCH 017/127] fix: copies and slices of a sort_view'ed Dataset
 raised AttributeError or mixed up the sort directions

---
 riptable/rt_dataset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c6efa2a..c908436 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -709,12 +709,13 @@ class Dataset(Struct):
                 new_sortlist = [_k for _k in self._col_sortlist if _k in ds]
                 if len(new_sortlist) > 0:
                     ds._col_sortlist = new_sortlist
-                    ds._sort_ascending = self.sort_ascending
+                    ds._sort_ascending = self._sort_ascending
             else:
-                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending) if _k in ds]
+                # _sort_ascending is in lexsort order, which is the reverse of _col_sortlist
+                new_sort = [(_k, _v) for _k, _v in zip(self._col_sortlist, self._sort_ascending[::-1]) if _k in ds]
                 if len(new_sort) > 0:
                     ds._col_sortlist = [x[0] for x in new_sort]
-                    ds._sort_ascending = [x[1] for x in new_sort]
+                    ds._sort_ascending = TypeRegister.FastArray([x[1] for x in new_sort[::-1]])
 
             ds._sort_display = self._sort_display
 
-- 
2.43.0


From ff4ca8f18f52a1a08a370ee38c30eee840009a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:53 +0000
Subject: [PATCH 018/127] fix: searchsorted ignored the strides of its
 arguments and misplaced values next to trailing NaNs

---
 riptable/rt_numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 0708b1f..43c6522 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -679,8 +679,10 @@ def _searchsorted(array, v, side="left", sorter=None):
 
     array = possibly_convert(array, dtype)
     v = possibly_convert(v, dtype)
-    # we cannot handle a sorter
-    if sorter is None:
+    # we cannot handle a sorter, nor NaNs at the end of the array
+    if sorter is None and not (dtype.kind == "f" and array.ndim == 1 and len(array) > 0 and array[-1] != array[-1]):
+        # BinsToCutsBSearch walks both arrays without looking at their strides
+        array, v = (x if x.ndim != 1 or x.strides == (x.itemsize,) else x.copy() for x in (array, v))
         try:
             res = None
             if side == "leftplus":
-- 
2.43.0


From b557fb67f7a9359822ff6bf6c0c23cb6b5f9e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:53 +0000
Subject: [PATCH 019/127] fix: lexsort raised SystemError for a strided array
 of length 1

---
 riptable/rt_numpy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 43c6522..97b15f7 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2670,6 +2670,14 @@ def lexsort(*args, **kwargs) -> FastArray:
         firstarg = firstarg[0]
 
     if isinstance(firstarg, np.ndarray):
+        # LexSort does not accept every strided array (it fails on those of length 1)
+        def _contiguous(arr):
+            if isinstance(arr, np.ndarray) and arr.ndim == 1 and arr.strides != (arr.itemsize,):
+                return arr.copy()
+            return arr
+
+        args = tuple([_contiguous(x) for x in arg] if isinstance(arg, list) else _contiguous(arg) for arg in args)
+
         # make sure fastarray
         # also if arraysize > 2billiom call LexSort64 instead
         if firstarg.size > 2e9:
-- 
2.43.0


From 9e7a89328f3e9446286a82c49f93e24052b6766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 020/127] fix: Dataset.duplicated(keep='last') flagged the
 wrong rows

---
 riptable/rt_dataset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index c908436..230c50e 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3614,12 +3614,11 @@ class Dataset(Struct):
             lastindex = ifirstgroup[-1] + ncountgroup[-1] - 1
 
             # skip invalid and shift everything
-            ilast = ifirstgroup[2:]
-            ilast -= 1
+            ilast = ifirstgroup[2:] - 1
             result[igroup[ilast]] = False
 
             # set the last one
-            result[lastindex] = False
+            result[igroup[lastindex]] = False
 
         # only return rows that occur once
         elif keep is False:
-- 
2.43.0


From 3efa463ea8f9b767b384c731d00a2ae6e63a70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 021/127] fix: comparing a unicode array with a bytes scalar
 was always False

---
 riptable/rt_fastarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 74e230b..b620218 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2217,6 +2217,10 @@ class FastArray(np.ndarray):
                     # we are byte strings but scalar unicode passed in
                     other = str.encode(other)
 
+            elif isinstance(other, bytes) and self.dtype.char == "U":
+                # we are unicode strings but scalar bytes passed in
+                other = other.decode()
+
             if isinstance(other, list):
                 # convert the list so a comparison can be made to the byte string array
                 other = FastArray(other)
-- 
2.43.0


From eec72cde831dbcff1219fc35b01e29f7a1a6717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 022/127] fix: ismember/isin between integer and float arrays
 truncated the floats

---
 riptable/rt_numpy.py | 51 ++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 97b15f7..4fc8ec4 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -471,33 +471,34 @@ def _find_lossless_common_array_type(arr1: np.array, arr2: np.array) -> Union[np
         return dtc
 
     # Check values to see if all of them can fit in the type of the other.
-    # Only consider coercion from inexact to exact types (simplifies tests).
+    # Coercion to an exact type is preferred.
 
-    def _get_info(dt: np.dtype) -> dict:
-        if np.issubdtype(dt, np.integer):
-            info = np.iinfo(dt)
-            return {"min": info.min, "max": info.max, "exact": True}
-        info = np.finfo(dt)
-        return {"min": info.min, "max": info.max, "exact": False}
-
-    def _can_coerce(arr: np.array, array_info: dict, target_info: dict) -> bool:
-        if not target_info["exact"]:
-            return False
+    def _can_coerce(arr: np.array, target: np.dtype) -> bool:
         np_arr = arr.view(np.ndarray)  # use np.ndarray since rt.FA is unreliable at these limits
-        if array_info["min"] < 0 and (np_arr < target_info["min"]).all():
-            return False
-        if (np_arr > target_info["max"]).all():
-            return False
-        return True
-
-    info1 = _get_info(dt1)
-    info2 = _get_info(dt2)
-
-    if _can_coerce(arr2, info2, info1):
-        return dt1
-
-    if _can_coerce(arr1, info1, info2):
-        return dt2
+        # invalids become the invalid of the target type (the largest unsigned number is taken as a value)
+        invalid = INVALID_DICT[arr.dtype.num]
+        if invalid != invalid:
+            valid = np_arr[np_arr == np_arr]
+        else:
+            valid = np_arr if arr.dtype.kind == "u" else np_arr[np_arr != invalid]
+        if len(valid) == 0:
+            return True
+        # Python numbers compare exactly
+        low, high = valid.min().item(), valid.max().item()
+        if np.issubdtype(target, np.integer):
+            info = np.iinfo(target)
+            # the sentinel of the target type is not a value
+            target_low, target_high = (info.min + 1, info.max) if info.min < 0 else (info.min, info.max - 1)
+            if low < target_low or high > target_high:
+                return False
+            return arr.dtype.kind != "f" or bool((valid == np.trunc(valid)).all())
+        # integers up to this size are exact in the floating point type
+        limit = 2 ** (np.finfo(target).nmant + 1)
+        return arr.dtype.kind != "f" and low >= -limit and high <= limit
+
+    for arr, target in sorted(((arr2, dt1), (arr1, dt2)), key=lambda pair: pair[1].kind == "f"):
+        if _can_coerce(arr, target):
+            return target
 
     return None
 
-- 
2.43.0


From fb153ef63ce60219e2a74e386be4969b88bde952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 023/127] fix: sort-based grouping merged keys differing in the
 last byte of 7-byte keys, and ignored an all-False filter

---
 riptable/rt_numpy.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 4fc8ec4..aad4ff8 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2179,6 +2179,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             # make a record array for greater comparison speed
             # TODO: future optimization - rotate in parallel
             value_array = np.core.records.fromarrays(list_arrays)
+            if value_array.itemsize == 7:
+                # GroupFromLexSort ignores the last byte of 7 byte items
+                value_array = np.core.records.fromarrays(list_arrays + [np.zeros(len(value_array), dtype=np.int8)])
 
             if rec:
                 # user can also specify to sort with all arrays lumped together
@@ -2189,6 +2192,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
         else:
             # just one array (no need to make a record array)
             value_array = list_arrays[0]
+            if value_array.dtype.char == "S" and value_array.itemsize == 7:
+                # GroupFromLexSort ignores the last byte of 7 byte items
+                value_array = value_array.astype("S8")
 
         index = None
 
@@ -2203,7 +2209,10 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             index = filtertrue
 
         # lexsort
-        if len(value_array) > 2e9:
+        if index is not None and len(index) == 0:
+            # nothing passes the filter (LexSort ignores an empty index)
+            iGroup = index
+        elif len(value_array) > 2e9:
             iGroup = rc.LexSort64(list_arrays, cutoffs=cutoffs, index=index)
         else:
             iGroup = rc.LexSort32(list_arrays, cutoffs=cutoffs, index=index)
-- 
2.43.0


From 2f803aebe6e46f53625bbe03aee09ac4d97c6b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:53 +0000
Subject: [PATCH 024/127] fix: grouping, membership and group calculations
 misread strided arrays

---
 riptable/rt_numpy.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index aad4ff8..c81abc8 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -194,6 +194,13 @@ def _cast_to_fa(
     return arr
 
 
+def _unstrided(arr):
+    """Copy a strided one-dimensional array (many routines of riptide_cpp ignore or reject strides); return anything else as is."""
+    if isinstance(arr, np.ndarray) and arr.ndim == 1 and arr.strides != (arr.itemsize,):
+        return arr.copy()
+    return arr
+
+
 def _args_to_fast_arrays(*arg_names) -> Callable:
     """
     A decorator factory which allows use to cast specified inputs to FastArrays or collections
@@ -683,7 +690,7 @@ def _searchsorted(array, v, side="left", sorter=None):
     # we cannot handle a sorter, nor NaNs at the end of the array
     if sorter is None and not (dtype.kind == "f" and array.ndim == 1 and len(array) > 0 and array[-1] != array[-1]):
         # BinsToCutsBSearch walks both arrays without looking at their strides
-        array, v = (x if x.ndim != 1 or x.strides == (x.itemsize,) else x.copy() for x in (array, v))
+        array, v = _unstrided(array), _unstrided(v)
         try:
             res = None
             if side == "leftplus":
@@ -1328,6 +1335,7 @@ def ismember(
                 return ismember(a[0], b[0], h)
 
             a, b = _ismember_align_multikey(a, b)
+            a, b = ([_unstrided(x) for x in keys] for keys in (a, b))
 
             return rc.MultiKeyIsMember32((a,), (b,), hint_size)
         else:
@@ -1392,6 +1400,9 @@ def ismember(
                 b = b.astype(common_type)
 
     # send to fastmath
+    # the hash does not look at the strides
+    a, b = _unstrided(a), _unstrided(b)
+
     if base_index == 1:
         return rc.IsMemberCategorical(a, b, h, hint_size)
     elif base_index is None or base_index == 0:
@@ -1875,6 +1886,7 @@ def _groupbycalculateall(*args):
     Each array has the length of unique_rows (Arg3)
     The returned arrays have the cells(accum operation) filled in
     """
+    args = ([_unstrided(arr) for arr in args[0]], *args[1:])
     return LedgerFunction(rc.GroupByAll32, *args)
 
 
@@ -1895,6 +1907,7 @@ def _groupbycalculateallpack(*args):
     The returned arrays have the cells(accum operation) filled in
     """
 
+    args = ([_unstrided(arr) for arr in args[0]], *args[1:])
     return LedgerFunction(rc.GroupByAllPack32, *args)
 
 
@@ -2072,6 +2085,8 @@ def groupbyhash(
         list_arrays = [list_arrays]
 
     if isinstance(list_arrays, list) and len(list_arrays) > 0:
+        list_arrays = [_unstrided(arr) for arr in list_arrays]
+        filter = _unstrided(filter)
         common_len = {len(arr) for arr in list_arrays}
 
         if len(common_len) == 1:
@@ -2172,6 +2187,7 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
         list_arrays = [list_arrays]
 
     if isinstance(list_arrays, list) and len(list_arrays) > 0:
+        list_arrays = [_unstrided(arr) for arr in list_arrays]
         if not isinstance(list_arrays[0], np.ndarray):
             raise ValueError("groupbylex first argument is not a list of numpy arrays")
 
@@ -2681,12 +2697,7 @@ def lexsort(*args, **kwargs) -> FastArray:
 
     if isinstance(firstarg, np.ndarray):
         # LexSort does not accept every strided array (it fails on those of length 1)
-        def _contiguous(arr):
-            if isinstance(arr, np.ndarray) and arr.ndim == 1 and arr.strides != (arr.itemsize,):
-                return arr.copy()
-            return arr
-
-        args = tuple([_contiguous(x) for x in arg] if isinstance(arg, list) else _contiguous(arg) for arg in args)
+        args = tuple([_unstrided(x) for x in arg] if isinstance(arg, list) else _unstrided(arg) for arg in args)
 
         # make sure fastarray
         # also if arraysize > 2billiom call LexSort64 instead
-- 
2.43.0


From f3e307cfba32198a00b0c544e56668ad5f31cdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:46 +0000
Subject: [PATCH 025/127] fix: differs/transitions of string arrays ignored
 their contract, and self-comparisons, rolling and time windows misread
 strided arrays; diff(0) raised

---
 riptable/rt_fastarray.py | 49 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index b620218..fd1ddb8 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -43,6 +43,7 @@ from .rt_grouping import Grouping
 from .rt_misc import _use_autocomplete_placeholder
 from .rt_mlutils import normalize_minmax, normalize_zscore
 from .rt_numpy import (
+    _unstrided,
     _searchsorted,
     asanyarray,
     bool_to_fancy,
@@ -2612,33 +2613,33 @@ class FastArray(np.ndarray):
     # Rolling section (cannot handle strides)
     #############################################
     def rolling_sum(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_SUM, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_SUM, window)
 
     def rolling_nansum(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANSUM, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_NANSUM, window)
 
     def rolling_mean(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_MEAN, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_MEAN, window)
 
     def rolling_nanmean(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANMEAN, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_NANMEAN, window)
 
     def rolling_quantile(self, q, window: int = 3) -> FastArray:
         window = min(window, len(self))
         windowParam = rolling_quantile_funcParam(q, window)
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_QUANTILE, windowParam)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_QUANTILE, windowParam)
 
     def rolling_var(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_VAR, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_VAR, window)
 
     def rolling_nanvar(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANVAR, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_NANVAR, window)
 
     def rolling_std(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_STD, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_STD, window)
 
     def rolling_nanstd(self, window: int = 3) -> FastArray:
-        return rc.Rolling(self, ROLLING_FUNCTIONS.ROLLING_NANSTD, window)
+        return rc.Rolling(_unstrided(self), ROLLING_FUNCTIONS.ROLLING_NANSTD, window)
 
     #############################################
     # TimeWindow section (cannot handle strides), time_array must be INT64
@@ -2660,7 +2661,7 @@ class FastArray(np.ndarray):
         FastArray([ 0,  1,  3,  6, 10, 15, 21, 27, 33, 39], dtype=int64)
 
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
+        return rc.TimeWindow(_unstrided(self), _unstrided(time_array), TIMEWINDOW_FUNCTIONS.TIMEWINDOW_SUM, time_dist)
 
     def timewindow_prod(self, time_array, time_dist):
         """
@@ -2678,7 +2679,7 @@ class FastArray(np.ndarray):
         >>> a.timewindow_prod(a,5)
         FastArray([    0,     0,     0,     0,     0,     0,   720,  5040, 20160, 60480], dtype=int64)
         """
-        return rc.TimeWindow(self, time_array, TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
+        return rc.TimeWindow(_unstrided(self), _unstrided(time_array), TIMEWINDOW_FUNCTIONS.TIMEWINDOW_PROD, time_dist)
 
     #############################################
     # Bottleneck section (only handles int32/int64/float32/float64)
@@ -4144,13 +4145,21 @@ class FastArray(np.ndarray):
 
     # -------------------------------------------------------
     def _internal_self_compare(self, math_op, periods=1, fancy=False):
-        """internal routine used for differs and transitions"""
+        """internal routine used for differs and transitions; math_op is the name of an operator for strings"""
+        self = _unstrided(self)
         result = empty_like(self, dtype=np.bool_)
 
         if periods == 0:
             raise ValueError("periods of 0 is invalid for transitions")
 
-        if periods > 0:
+        if isinstance(math_op, str):
+            if periods > 0:
+                result[periods:] = getattr(self[periods:], math_op)(self[:-periods])
+                result[:periods] = False
+            else:
+                result[:periods] = getattr(self[:periods], math_op)(self[-periods:])
+                result[periods:] = False
+        elif periods > 0:
             TypeRegister.MathLedger._BASICMATH_TWO_INPUTS(
                 (self[periods:], self[:-periods], result[periods:]), math_op, 0
             )
@@ -4228,10 +4237,7 @@ class FastArray(np.ndarray):
                    False, False])
         """
         if self.dtype.num > 13:
-            result = self != self.shift(periods)
-            if fancy:
-                return bool_to_fancy(result)
-            return result
+            return self._internal_self_compare("__eq__", periods=periods, fancy=fancy)
         return self._internal_self_compare(MATH_OPERATION.CMP_EQ, periods=periods, fancy=fancy)
 
     # ---------------------------------------------------------------------------
@@ -4259,10 +4265,7 @@ class FastArray(np.ndarray):
         FastArray([ True, True, True, False, False, True, False])
         """
         if self.dtype.num > 13:
-            result = self != self.shift(periods)
-            if fancy:
-                return bool_to_fancy(result)
-            return result
+            return self._internal_self_compare("__ne__", periods=periods, fancy=fancy)
         return self._internal_self_compare(MATH_OPERATION.CMP_NE, periods=periods, fancy=fancy)
 
     # -------------------------------------------------------
@@ -4324,7 +4327,9 @@ class FastArray(np.ndarray):
             raise TypeError(f"shift does not support the dtype {self.dtype.name!r}")
 
         temp = empty(self.shape, dtype=self.dtype)
-        if abs(periods) >= len(self):
+        if periods == 0:
+            np.subtract(self, self, out=temp)
+        elif abs(periods) >= len(self):
             temp.fill(invalid)
         elif periods > 0:
             temp[:periods] = invalid
-- 
2.43.0


From ee09bbfc78b545398b6fd9f26a279e11cfb9616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:46 +0000
Subject: [PATCH 026/127] fix: cummin/cummax(skipna=False) of integer arrays
 recovered after an invalid

---
 riptable/rt_fastarraynumba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_fastarraynumba.py b/riptable/rt_fastarraynumba.py
index 7a1b9be..69e4930 100644
--- a/riptable/rt_fastarraynumba.py
+++ b/riptable/rt_fastarraynumba.py
@@ -346,7 +346,7 @@ def nb_cummin_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_min = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val < running_min:
+            if running_min != inv and (val == inv or val < running_min):
                 running_min = val
             ret[i] = running_min
 
@@ -394,7 +394,7 @@ def nb_cummax_int(arr: np.ndarray, ret: np.ndarray, inv, skipna):
         running_max = arr[0]
         for i in range(len(arr)):
             val = arr[i]
-            if val == inv or val > running_max:
+            if running_max != inv and (val == inv or val > running_max):
                 running_max = val
             ret[i] = running_max
 
-- 
2.43.0


From 6014d7a446b4e46db698581c07232cf8e33924b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:49 +0000
Subject: [PATCH 027/127] fix: stacking strided arrays, dates and categoricals
 of length 1 raised or lost invalids

---
 riptable/rt_hstack.py | 10 +++++-----
 riptable/rt_numpy.py  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/riptable/rt_hstack.py b/riptable/rt_hstack.py
index c4cb7a7..112116e 100644
--- a/riptable/rt_hstack.py
+++ b/riptable/rt_hstack.py
@@ -9,7 +9,7 @@ import riptide_cpp as rc
 
 from .rt_enum import CategoryMode, NumpyCharTypes, TypeRegister, int_dtype_from_len
 from .rt_grouping import hstack_groupings, merge_cats
-from .rt_numpy import arange, empty, hstack
+from .rt_numpy import _unstrided, arange, empty, hstack
 
 
 def hstack_any(
@@ -658,7 +658,7 @@ def _hstack_categorical(cats: list, verbose: bool = False, destroy: bool = False
     # todo: see _multistack_categoricals int rt_sds.py
     # stack indices
     # this will stack the fastarrays
-    indices = rc.HStack(cats)
+    indices = rc.HStack([_unstrided(arr) for arr in cats])
     idx_cutoffs = TypeRegister.FastArray([len(c._fa) for c in cats], dtype=np.int64).cumsum()
 
     # ------------------------- start rebuild here
@@ -748,7 +748,7 @@ def _hstack_datetimenano(dtlist, destroy=False):
         return dtlist
 
     # hstack int64 utc nano arrays
-    arr = rc.HStack(dtlist)
+    arr = rc.HStack([_unstrided(arr) for arr in dtlist])
 
     # reconstruct with first item
     return TypeRegister.DateTimeNano.newclassfrominstance(arr, dtlist[0])
@@ -761,7 +761,7 @@ def _hstack_timespan(tspans, destroy=False):
     This is a very simple class, rewrap the hstack result in class.
     NOTE: destroy ignored
     """
-    ts = rc.HStack(tspans)
+    ts = rc.HStack([_unstrided(arr) for arr in tspans])
     return TypeRegister.TimeSpan(ts)
 
 
@@ -808,7 +808,7 @@ def _hstack_date_internal(dates, subclass=TypeRegister.Date):
     if len(dates) == 1:
         return dates
 
-    stacked = rc.HStack(dates)
+    stacked = rc.HStack([_unstrided(arr) for arr in dates])
     return subclass.newclassfrominstance(stacked, dates[0])
 
 
diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index c81abc8..d65d0c0 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -5691,7 +5691,7 @@ def hstack(tup: Sequence[np.ndarray], dtype: Optional[Union[str, type, np.dtype]
             dtypenum = np.dtype(dtype).num
 
     try:
-        hstack_result = rc.HStack(tup, dtypenum)
+        hstack_result = rc.HStack([_unstrided(arr) for arr in tup], dtypenum)
     except:
         hstack_result = np.hstack(tup)
 
-- 
2.43.0


From fa20899151ebd36019cfeb4b3e2c0eda8f04592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 028/127] fix: comparing Categoricals with base index 0 uses
 their codes as base 1

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index e8bb1ba..fef6066 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4770,7 +4770,7 @@ class Categorical(GroupByOps, FastArray):
                     raise ValueError(f"Could not compare categoricals because of conflicting items in dictionaries.")
 
             else:
-                oldidx = [self._fa, other._fa]
+                oldidx = [cat._fa + 1 if cat.base_index == 0 else cat._fa for cat in (self, other)]
                 oldcats = [[self.category_array, other.category_array]]
                 newidx, _ = merge_cats(oldidx, oldcats)
                 # print('***newidx', newidx)
-- 
2.43.0


From 6e8f9bbf0750cc16fe5f2a5aed3f6e9bdebafffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:46 +0000
Subject: [PATCH 029/127] fix: as_singlekey of a multikey Categorical forgets
 base index 0

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index fef6066..d4b7858 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5484,7 +5484,7 @@ class Categorical(GroupByOps, FastArray):
         elif self.ismultikey:
             # use onedict
             name, arr = self.grouping.onedict(invalid=False, sep=sep)
-            return Categorical(self._fa, arr, ordered=ordered)
+            return Categorical(self._fa, arr, ordered=ordered, base_index=self.base_index)
         else:
             if self.base_index == 0:
                 return Categorical(self._fa + 1, self.categories())
-- 
2.43.0


From 0fdf663916e4e0f7bdfaf31449d9a63077bfded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 030/127] fix: expand_dict ignores base index 0

---
 riptable/rt_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index d4b7858..9b9bce0 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6167,7 +6167,7 @@ class Categorical(GroupByOps, FastArray):
         else:
             xdict = {}
             for i, col in self.category_dict.items():
-                xdict[i] = self._expand_array(col, index=self._fa)
+                xdict[i] = self._expand_array(col)
         return xdict
 
     @property
-- 
2.43.0


From 5827188d921a9008277fc0821fdaf34d17596bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 031/127] fix: expanding a Categorical widens small integer
 categories and rejects booleans

---
 riptable/rt_categorical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9b9bce0..9e9cf8e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -6202,7 +6202,7 @@ class Categorical(GroupByOps, FastArray):
             # ***changed behavior of invalid category
             # will always appear in non-uniques, no need to prepend it
 
-            if arr.dtype.char in NumpyCharTypes.AllFloat + NumpyCharTypes.AllInteger:
+            if arr.dtype.char in NumpyCharTypes.AllFloat + NumpyCharTypes.AllInteger + "?":
                 # for numeric types, can't append filtered string, otherwise the whole array will flip!
                 inv = INVALID_DICT[arr.dtype.num]
             elif arr.dtype.char == "U":
@@ -6220,7 +6220,7 @@ class Categorical(GroupByOps, FastArray):
         # This is because the 'hstack' function will return an array of the same type as
         # the first/leftmost argument it's given, and we want this function to return
         # an array of the same type as 'arr' so the type information is preserved.
-        invarr = np.array([inv])
+        invarr = np.array([inv], dtype=None if arr.dtype.char in "SU" else arr.dtype)
         invarr = TypeRegister.newclassfrominstance(invarr, arr)
 
         # TODO: Revisit after upgrading to numpy 1.17+ -- this might be a better approach compared to
-- 
2.43.0


From 2122af7494de74ef04ec91ffc41dc76f0862d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 032/127] fix: copy of a Categorical with base index 0 turns it
 into base 1

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9e9cf8e..0fae53e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1759,6 +1759,7 @@ class Categorical(GroupByOps, FastArray):
                                 index,
                                 categories=_from_categorical.categories_as_dict(),
                                 sort_display=_sort_gb,
+                                base_index=base_index,
                                 categorical=True,
                                 dtype=dtype,
                                 _trusted=True,
-- 
2.43.0


From 02db5bd9c7ccfdda95bd8b0a09b3e31dde7061d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 033/127] fix: as_singlekey fails on keys with non-ASCII text

---
 riptable/rt_grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 2a55df1..4547733 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3245,6 +3245,8 @@ class Grouping:
         a new single array of the uniques concatenated
         """
         stringtype = "S"
+        # byte strings cannot hold the text of a unicode key
+        unicode = unicode or any(v.dtype.char == "U" for v in self._grouping_unique_dict.values())
         if unicode:
             stringtype = "U"
 
-- 
2.43.0


From 624f8dbcadc9f35757a784acf769a965127f3041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:47 +0000
Subject: [PATCH 034/127] fix: a Categorical with every row filtered and a code
 dtype gets codes outside of its categories

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index d65d0c0..56864d0 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1276,6 +1276,9 @@ def ismember(
 
     if len_a == 0 or len_b == 0:
         indexer_type = np.dtype(np.int32)
+        if base_index == 1:
+            # nothing matches, and 0 is what the base 1 indexer has for that
+            return int(len_a != 0), zeros(len_a, dtype=indexer_type)
         indexer = full(len_a, INVALID_DICT[indexer_type.num], dtype=indexer_type)
         return zeros(len(a), dtype=bool), indexer
 
-- 
2.43.0


From 5541665ca60bdf053365eb10946babedba217655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 035/127] fix: auto_add=True given to the Categorical
 constructor is lost

---
 riptable/rt_categorical.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 0fae53e..1345ff1 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1853,7 +1853,7 @@ class Categorical(GroupByOps, FastArray):
                 dtype=dtype,
                 unicode=unicode,
             )
-            return cls(grouping, invalid=invalid_category)
+            return cls(grouping, invalid=invalid_category, auto_add=auto_add)
 
         # all branches above will be ready for final construction
         else:
@@ -1897,7 +1897,7 @@ class Categorical(GroupByOps, FastArray):
                         dtype=dtype,
                         unicode=unicode,
                     )
-                    return cls(grouping)
+                    return cls(grouping, auto_add=auto_add)
 
             # most common path --- values as array
             if isinstance(values, np.ndarray):
@@ -1929,7 +1929,7 @@ class Categorical(GroupByOps, FastArray):
                         dtype=dtype,
                         unicode=unicode,
                     )
-                    result = cls(grouping, invalid=invalid_category)
+                    result = cls(grouping, invalid=invalid_category, auto_add=auto_add)
                     _copy_name(values, result)
                     return result
 
@@ -2015,7 +2015,7 @@ class Categorical(GroupByOps, FastArray):
                                 categorical=True,
                                 dtype=dtype,
                             )
-                            return cls(grouping, invalid=invalid_category)
+                            return cls(grouping, invalid=invalid_category, auto_add=auto_add)
 
                         # non-unique values -> unique cateogires
                         # grouping will use ismember
@@ -2057,7 +2057,7 @@ class Categorical(GroupByOps, FastArray):
                                             f"Invalid category was set to {invalid_category}. If not in provided categories, will also appear as filtered. For example: print(Categorical(['a','a','b'], ['b'], filter=FA([True, True, False]), invalid='a')) -> Filtered, Filtered, Filtered",
                                             stacklevel=2,
                                         )
-                            return cls(grouping, invalid=invalid_category)
+                            return cls(grouping, invalid=invalid_category, auto_add=auto_add)
 
             else:
                 if grouping is None:
-- 
2.43.0


From 709f03c010d16e17760d3de8b3f1c2e6ccf44b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 036/127] fix: set_valid on a mapped Categorical masks the rows
 of the original

---
 riptable/rt_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 1345ff1..be29c36 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -3281,6 +3281,7 @@ class Categorical(GroupByOps, FastArray):
         if self.isenum:
             ikey = self._fa
             if filter is not None:
+                ikey = ikey.copy()
                 if filter.dtype.char == "?":
                     # set the invalids (technically filtering not allowed on an enum)
                     ikey[~filter] = ikey.inv
-- 
2.43.0


From 9702bdc7c58056deb75ea5bb54dbfc1c45b6a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 037/127] fix: shrink with misc gives the wrong code to the
 misc category

---
 riptable/rt_grouping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 4547733..dcdf08f 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2009,7 +2009,8 @@ class Grouping:
             if misc is not None:
                 # everything already 0 stays 0
                 zeromask = self.catinstance == 0
-                maxvalue = max(idx) + 1
+                # the new category goes behind all of the given ones
+                maxvalue = len(newcats[0]) + 1
                 # everything filtered out gets MISC
                 idx[~mask] = maxvalue
                 idx = hstack([0, idx, maxvalue])
-- 
2.43.0


From d127b2f0b8c688bf2b16da0e7eea1c1633812b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 038/127] fix: category_replace truncates longer names and
 shows in copies

---
 riptable/rt_categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index be29c36..5e5b6da 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1163,7 +1163,8 @@ class Categories:
                     if len(new_exists) == 1:
                         return replace_idx + self.base_index, new_exists[0]
                     else:
-                        self._list[replace_idx] = new_value
+                        # not in place: other categoricals may share the list, and a longer value must fit
+                        self._list = hstack([self._list[:replace_idx], new_value, self._list[replace_idx + 1 :]])
                         self._ordered = False
                         self._sorted = False
                 else:
-- 
2.43.0


From 4604e2235678bfb30e8edd38ba88c7eaae7d9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 039/127] fix: mapping edits show in other Categoricals, keep
 replaced names and leave the grouping behind

---
 riptable/rt_categorical.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 5e5b6da..a99f26e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -1084,6 +1084,7 @@ class Categories:
                     if value is not None:
                         if exists is not False:
                             self.int2strdict[code] = value
+                            self.str2intdict.pop(exists, None)
                             self.str2intdict[value] = code
                         else:
                             raise ValueError(f"Mapping doesn't exists for {code}. Nothing was replaced.")
@@ -3831,12 +3832,23 @@ class Categorical(GroupByOps, FastArray):
         self._categories_wrap._auto_add_categories = False
 
     # -------------------------------------------------------
+    def _edit_mapping(self, edit, *args, **kwargs):
+        """
+        Edit the mapping of this categorical only, and let the grouping follow.
+        """
+        cats = self._categories_wrap
+        if self.isenum:
+            cats._grouping = cats.grouping.copy(deep=False)
+        getattr(cats, edit)(*args, **kwargs)
+        self.grouping._enum = cats.grouping._enum
+
+    # ------------------------------------------------------------
     def mapping_add(self, code, value):
         """
         Add a new code -> value mapping to categories.
         """
         if self._locked is False:
-            self._categories_wrap._mapping_edit(code, value=value, how="add")
+            self._edit_mapping("_mapping_edit", code, value=value, how="add")
         else:
             raise ValueError(f"Cannot add mapping to a locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3847,7 +3859,7 @@ class Categorical(GroupByOps, FastArray):
         Remove the category associated with an integer code.
         """
         if self._locked is False:
-            self._categories_wrap._mapping_edit(code, how="remove")
+            self._edit_mapping("_mapping_edit", code, how="remove")
         else:
             raise ValueError(f"Cannot remove mapping a locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3858,7 +3870,7 @@ class Categorical(GroupByOps, FastArray):
         Replace a single integer code with a single value.
         """
         if self._locked is False:
-            self._categories_wrap._mapping_edit(code, value=value, how="replace")
+            self._edit_mapping("_mapping_edit", code, value=value, how="replace")
         else:
             raise ValueError(f"Cannot replace mapping in a locked Categorical. Call unlock() first.")
         self.groupby_reset()
@@ -3870,7 +3882,7 @@ class Categorical(GroupByOps, FastArray):
         new mapping, they will appear as Invalid.
         """
         if self._locked is False:
-            self._categories_wrap._mapping_new(mapping)
+            self._edit_mapping("_mapping_new", mapping)
         else:
             raise ValueError(f"Cannot replace mapping dictionary in a locked Categorical. Call unlock() first.")
         self.groupby_reset()
-- 
2.43.0


From 7d36db7bdd6a49de3dddcdde79b85ae23e86684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:44 +0000
Subject: [PATCH 040/127] fix: category edits leave the grouping with the old
 categories, show in row subsets, move filtered rows and overflow the codes

---
 riptable/rt_categorical.py | 66 +++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index a99f26e..e08e429 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -10,6 +10,7 @@ __all__ = [
     "categorical_merge_dict",
 ]
 
+import copy
 import logging
 import operator
 import sys
@@ -1768,7 +1769,8 @@ class Categorical(GroupByOps, FastArray):
                             )
 
                     # don't need to reconstruct from grouping
-                    categories = _from_categorical
+                    # (a copy of the wrapper, so that editing the categories of one does not show in the other)
+                    categories = copy.copy(_from_categorical)
 
                 # build a grouping object from SDS load
                 # categories holds the unique array(s)
@@ -3893,7 +3895,10 @@ class Categorical(GroupByOps, FastArray):
         New category will always be added to the end of the category array.
         """
         if self._locked is False:
+            if self.category_mode == CategoryMode.StringArray:
+                self._check_code_range(len(self._categories_wrap._list) + 1)
             self._categories_wrap._array_edit(value, how="add")
+            self._sync_categories()
             self._ordered = False
             self._sorted = False
         else:
@@ -3908,6 +3913,7 @@ class Categorical(GroupByOps, FastArray):
         """
         if self._locked is False:
             remove_code = self._categories_wrap._array_edit(value, how="remove")
+            self._sync_categories()
             if remove_code is not None:
                 prev_match = self._fa == remove_code
                 if self.base_index >= 1:
@@ -3925,6 +3931,7 @@ class Categorical(GroupByOps, FastArray):
     def category_replace(self, value, new_value):
         if self._locked is False:
             fix_index_tup = self._categories_wrap._array_edit(value, new_value=new_value, how="replace")
+            self._sync_categories()
             if fix_index_tup is not None:
                 replace_mask = self._fa == fix_index_tup[0]
                 self._fa[replace_mask] = fix_index_tup[1]
@@ -4325,6 +4332,48 @@ class Categorical(GroupByOps, FastArray):
         self.grouping.set_dirty()
 
     # -------------------------------------------------------
+    def _add_categories(self, value):
+        """
+        Add the categories in `value` we do not have (raises if not allowed), then fix up the codes.
+        """
+        cats = self._categories_wrap
+        oldlist = cats._list
+        fix_index = cats._possibly_add_categories(value)
+        if fix_index is not None:
+            try:
+                self._check_code_range(len(cats._list))
+            except ValueError:
+                cats._list = oldlist
+                raise
+            codes = fix_index[self._fa - self.base_index] + self.base_index
+            if self.base_index == 1:
+                # the filtered rows have no category to follow
+                codes[self._fa == 0] = 0
+            # must be inplace to change self
+            self._fa[:] = codes
+            self._sync_categories()
+
+    def _check_code_range(self, count):
+        """
+        The codes are edited in place, their type has to hold the code of the last of `count` categories.
+        """
+        if count - 1 + self.base_index > np.iinfo(self.dtype).max:
+            raise ValueError(f"Cannot have {count} categories with codes of type {self.dtype}.")
+
+    def _sync_categories(self):
+        """
+        The category list was edited: let the grouping (labels, unique count) follow.
+        """
+        cats = self._categories_wrap
+        grouping = self.grouping
+        grouping._grouping_unique_dict = {name: cats._list for name in grouping.uniquedict}
+        grouping._unique_count = len(cats._list)
+        grouping.Ordered = cats._ordered
+        grouping._gbkeys = None
+        grouping._isortrows = None
+        cats._grouping = grouping.copy(deep=False)
+
+    # ------------------------------------------------------------
     def __setitem__(self, index, value):
         """
         Parameters
@@ -4344,9 +4393,13 @@ class Categorical(GroupByOps, FastArray):
             is_same, catlist = Categorical.categories_equal([self, value])
             value = catlist[1]
             if not is_same:
-                # convert back to strings (slow)
-                # TODO: multikey will fail here
-                value = self.expand_array
+                # translate to our own codes, a category we do not have raises unless it can be added
+                if not (self.issinglekey and value.issinglekey):
+                    raise NotImplementedError("Cannot assign a Categorical with different categories unless both are single key.")
+                self._add_categories(value.category_array)
+                _, codes = ismember(value.category_array, self.category_array)
+                codes = hstack([FastArray([0], dtype=codes.dtype), codes + self.base_index])
+                value = codes[value._fa + (1 - value.base_index)]
 
         # first check if the value is string like
         # if it is, we have to convert it to an index first
@@ -4361,10 +4414,7 @@ class Categorical(GroupByOps, FastArray):
 
             else:
                 # add the category, clean up the index array afterwards
-                fix_index = self._categories_wrap._possibly_add_categories(value)
-                if fix_index is not None:
-                    # must be inplace to change self
-                    self._fa[:] = fix_index[self._fa - self.base_index] + self.base_index
+                self._add_categories(value)
                 # convert string to int index
                 # we know value will have an exact match
                 value = self._categories_wrap.get_category_match_index(value)
-- 
2.43.0


From 750a34853044279d3fcd88146bfa522834e9564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 041/127] fix: Categorical.isin truncates numbers to the
 category type and fails on multikey tuples

---
 riptable/rt_categorical.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index e08e429..140ad7e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4243,10 +4243,13 @@ class Categorical(GroupByOps, FastArray):
             x = np.array([x])
         # numpy will find the common dtype (strings will always win)
         elif isinstance(x, (list, tuple)):
-            if self.category_mode == CategoryMode.NumericArray and isinstance(x, list):
-                # user allowed to pass in floats as strings
-                x = np.asarray(x, dtype=self.category_array.dtype)
+            if self.ismultikey and len(x) > 0:
+                # keys are tuples, compare them one by one
+                return self == (x if isinstance(x[0], tuple) else [x])
             x = np.array(x)
+            if self.category_mode == CategoryMode.NumericArray and x.dtype.char in "SU":
+                # user allowed to pass in floats as strings
+                x = x.astype(self.category_array.dtype)
 
         # both ismember and == handle categorical specially
         if isinstance(x, (list, np.ndarray)):
-- 
2.43.0


From f9054e45cfd6dff1983d5ccc8ed164a5f5bc9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 042/127] fix: copies and row subsets of a Categorical lose its
 invalid category

---
 riptable/rt_categorical.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 140ad7e..4aa781e 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -477,6 +477,7 @@ class Categories:
         c._auto_add_categories = self._auto_add_categories
         c._name = self._name
         c._filtered_name = self._filtered_name
+        c._invalid_category = self._invalid_category
 
         if self.isenum:
             if deep:
@@ -3344,6 +3345,7 @@ class Categorical(GroupByOps, FastArray):
             base_index=origin.base_index,
             ordered=origin._ordered,
             sort_gb=origin._sort_gb,
+            invalid=origin.invalid_category,
         )
 
     # ------------------------------------------------------------
@@ -4663,7 +4665,12 @@ class Categorical(GroupByOps, FastArray):
                 if isinstance(fld, list) and len(fld) > 0 and isinstance(fld[0], (str, bytes, tuple)):
                     return self.isin(fld)
                 result = self.grouping[fld]
-                newcat = self.__class__(result, _from_categorical=self._categories_wrap, base_index=self.base_index)
+                newcat = self.__class__(
+                    result,
+                    _from_categorical=self._categories_wrap,
+                    base_index=self.base_index,
+                    invalid=self.invalid_category,
+                )
 
             # OLD PATH
             # rewriting indexing for c[['string1', 'string2']], etc.
-- 
2.43.0


From f0b0379d67632fd76542333b9d00df9180ff2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 043/127] fix: order comparison of two Categoricals follows the
 first appearance of the values

---
 riptable/rt_categorical.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 4aa781e..0de9a02 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4847,7 +4847,9 @@ class Categorical(GroupByOps, FastArray):
             else:
                 oldidx = [cat._fa + 1 if cat.base_index == 0 else cat._fa for cat in (self, other)]
                 oldcats = [[self.category_array, other.category_array]]
-                newidx, _ = merge_cats(oldidx, oldcats)
+                # for the order of the codes to be that of the values
+                ordered = func_name not in ("__eq__", "__ne__")
+                newidx, _ = merge_cats(oldidx, oldcats, ordered=ordered)
                 # print('***newidx', newidx)
                 # merge index returns stacked
                 newidx_self = newidx[: len(self)]
-- 
2.43.0


From e2084ea4c70b638154aa8ec8ad8157fd57d96ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:40 +0000
Subject: [PATCH 044/127] fix: a Categorical differs from a list of values only
 where it differs from all, float32 and bool scalars compare by value

---
 riptable/rt_categorical.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 0de9a02..9e6e8c4 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -4794,7 +4794,7 @@ class Categorical(GroupByOps, FastArray):
         func = None
 
         # COMPARE TO INTEGER (numeric array categoricals will get handled differently)
-        if isinstance(other, (int, np.integer, float, np.float64)):
+        if isinstance(other, (int, np.integer, float, np.floating, np.bool_)):
             # error will be raised if doesn't match categories
             if not self.isenum:
                 other = self._categories_wrap.get_category_index(other)
@@ -4862,6 +4862,9 @@ class Categorical(GroupByOps, FastArray):
             if len(other) == 0:
                 raise ValueError("List was empty.")
 
+            # equal to any of the items, or different from all of them
+            combine = mask_andi if func_name == "__ne__" else mask_ori
+
             first_item = other[0]
             if isinstance(first_item, (str, bytes)):
                 if len(other) == len(self):
@@ -4873,13 +4876,13 @@ class Categorical(GroupByOps, FastArray):
                 # TODO: merge this with something similar to .isin()
                 other = [self._categories_wrap.get_category_index(item) for item in other]
                 func = getattr(caller, func_name)
-                return mask_ori([func(item) for item in other])
+                return combine([func(item) for item in other])
 
             elif isinstance(first_item, tuple):
                 if self.ismultikey:
                     other = [self._categories_wrap.get_multikey_index(item) for item in other]
                     func = getattr(caller, func_name)
-                    return mask_ori([func(item) for item in other])
+                    return combine([func(item) for item in other])
 
             if len(other) == len(self):
                 return FastArray(getattr(CompareCheckHelper, func_name)(self.categories(), self._fa, other))
-- 
2.43.0


From c61d65e67eb95f4762f3a49d8813d181494cc43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:55 +0000
Subject: [PATCH 045/127] fix: Grouping.isortrows raised AttributeError for
 want of its attribute

---
 riptable/rt_grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index dcdf08f..ee575f3 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -531,6 +531,7 @@ class Grouping:
         "iGroupReverse": None,
         # misc
         "_gbkeys": None,
+        "_isortrows": None,
         "_sort_display": False,  # Note consider making Nones
         "_base_index": 1,
         "_pcutoffs": None,
@@ -1506,8 +1507,7 @@ class Grouping:
         self._isdirty = True
         self._gbkeys = None
         self._pcutoffs = None
-        # TODO: Also clear _isortrows since _gbkeys (which it's derived from) was cleared?
-        # self._isortrows = None
+        self._isortrows = None
 
         # force enum to regen also
         if self.isenum or self._base_index == 0:
-- 
2.43.0


From 64497f04fc7fbe49c083c90b62569d26921bd64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:56 +0000
Subject: [PATCH 046/127] fix: next/previous row numbers overflowed narrow
 group keys

---
 riptable/rt_numpy.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 56864d0..2c9fe71 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1840,6 +1840,14 @@ def makeilast(key, unique_count: int, filter=None) -> np.ndarray:
     return rc.MakeiFirst(key, unique_count, filter, 1)
 
 
+# -------------------------------------------------------
+def _row_number_key(key):
+    # the result holds row numbers but has the dtype of the key, which is only as wide as the group count needs
+    if len(key) - 1 > np.iinfo(key.dtype).max:
+        return key.astype(np.int32 if len(key) - 1 <= np.iinfo(np.int32).max else np.int64)
+    return key
+
+
 # -------------------------------------------------------
 def makeinext(key, unique_count: int) -> np.ndarray:
     """
@@ -1852,10 +1860,11 @@ def makeinext(key, unique_count: int) -> np.ndarray:
 
     Returns
     -------
-    An index array of the same dtype and length of the next row
+    An index array of the same length of the next row. It has the dtype of `key`, or the
+    smallest of int32 and int64 which can hold every row number.
     The index array will have -MAX_INT set to any locations it could not find a next
     """
-    return rc.MakeiNext(key, unique_count, 0)
+    return rc.MakeiNext(_row_number_key(key), unique_count, 0)
 
 
 # -------------------------------------------------------
@@ -1872,7 +1881,7 @@ def makeiprev(key, unique_count: int) -> np.ndarray:
     -------
     The index array will have -MAX_INT set to any locations it could not find a previous
     """
-    return rc.MakeiNext(key, unique_count, 1)
+    return rc.MakeiNext(_row_number_key(key), unique_count, 1)
 
 
 # -------------------------------------------------------
-- 
2.43.0


From 33f709089cf53564cb161b91cea781c36528b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:56 +0000
Subject: [PATCH 047/127] fix: first_bool and last_bool failed for filtered
 lexicographical groupings

---
 riptable/rt_groupbyops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 9dec598..88ee5e4 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -301,7 +301,7 @@ class GroupByOps(ABC):
         """
         # boolean mask set to False
         fancy = self.first_fancy
-        result = zeros_like(self.grouping.iGroup, dtype="?")
+        result = zeros_like(self.grouping.ikey, dtype="?")
 
         # set boolean mask to True for only the first occurrence
         result[fancy] = True
@@ -321,7 +321,7 @@ class GroupByOps(ABC):
         """
         # boolean mask set to False
         fancy = self.last_fancy
-        result = zeros_like(self.grouping.iGroup, dtype="?")
+        result = zeros_like(self.grouping.ikey, dtype="?")
 
         # set boolean mask to True for only the last occurrence
         result[fancy] = True
-- 
2.43.0


From f5dce12725bb98a87cf869c24aaf6aa96e81c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:58 +0000
Subject: [PATCH 048/127] fix: float32 nansum of a group without rows was
 uninitialized memory

---
 riptable/rt_numpy.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 2c9fe71..acd3007 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -153,6 +153,7 @@ import riptide_cpp as rc
 from riptide_cpp import LedgerFunction
 
 from .rt_enum import (
+    GB_FUNCTIONS,
     INVALID_DICT,
     MATH_OPERATION,
     REDUCE_FUNCTIONS,
@@ -1899,7 +1900,13 @@ def _groupbycalculateall(*args):
     The returned arrays have the cells(accum operation) filled in
     """
     args = ([_unstrided(arr) for arr in args[0]], *args[1:])
-    return LedgerFunction(rc.GroupByAll32, *args)
+    result = LedgerFunction(rc.GroupByAll32, *args)
+    _, ikey, unique_rows, func_list = args[:4]
+    for out, func in zip(result, func_list):
+        if func == GB_FUNCTIONS.GB_NANSUM and out is not None and out.dtype == np.float32:
+            # GroupByAll32 does not initialize the float32 sum of a group without rows
+            out[rc.BinCount(ikey, unique_rows + 1) == 0] = 0
+    return result
 
 
 # -------------------------------------------------------
-- 
2.43.0


From cb6841cac7a494155a5ae7a11a59b1dea0d63fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:58 +0000
Subject: [PATCH 049/127] fix: Dataset.cat ignored its filter for a column that
 is a Categorical

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 230c50e..08afb9d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6113,7 +6113,7 @@ class Dataset(Struct):
         c              0
         """
         cols = self._makecat(cols)
-        if not isinstance(cols, TypeRegister.Categorical):
+        if not isinstance(cols, TypeRegister.Categorical) or kwargs.get("filter") is not None:
             cols = TypeRegister.Categorical(cols, **kwargs)
 
         cols._dataset = self
-- 
2.43.0


From 249bca8cbd0abdc661342cb7ce589c20f1d0f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:58 +0000
Subject: [PATCH 050/127] fix: first/last/nth of a Categorical gave codes
 outside the categories for groups without a value

---
 riptable/rt_grouping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index ee575f3..8e89863 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2347,6 +2347,9 @@ class Grouping:
 
             # properly restore fastarray subclasses
             elif key in origdict:
+                if isinstance(origdict[key], TypeRegister.Categorical) and origdict[key].base_index == 1:
+                    # a group without a value is not in any category
+                    value = where(value == INVALID_DICT[value.dtype.num], 0, value).astype(value.dtype)
                 accumdict[key] = TypeRegister.newclassfrominstance(value, origdict[key])
 
         for key in removelist:
-- 
2.43.0


From ec08d460638c4336df36b14d93abbe087d1d15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:58 +0000
Subject: [PATCH 051/127] fix: count_uniques miscounted base-0 Categoricals

---
 riptable/rt_groupbyops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 88ee5e4..0385000 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -1085,9 +1085,13 @@ class GroupByOps(ABC):
             newdict = {}
             for colname, arr in origdict.items():
                 if colname not in gbk:
-                    mcat = TypeRegister.Categorical([g.catinstance, arr], filter=filter)
+                    mcat = TypeRegister.Categorical([g.ikey, arr], filter=filter)
                     if transform:
-                        result = self.nansum(mcat.first_bool, transform=transform)[-1]
+                        count = zeros(g.unique_count + 1, dtype=int)
+                        first_rows = g.ikey[mcat.first_bool]
+                        if len(first_rows):
+                            count[:] = rc.BinCount(first_rows, g.unique_count + 1)
+                        result = count[g.ikey]
                     else:
                         count = mcat.null()[0].count()
                         result = zeros(len(gbk) + 1, dtype=int)
-- 
2.43.0


From f2c4cc85d6786ec407f1a83e0bd8abf4b71efe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:58 +0000
Subject: [PATCH 052/127] fix: transform gave rows without a group the value of
 another group and was shifted for base-0 Categoricals

---
 riptable/rt_groupbyops.py |  4 ++--
 riptable/rt_grouping.py   | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 0385000..e2a5599 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -339,8 +339,8 @@ class GroupByOps(ABC):
         if getattr(self, "_transform", False) or transform:
             ikey = self.grouping.ikey
             showfilter = kwargs.get("showfilter", False)
-            if not showfilter and self.grouping.base_index == 1:
-                ikey = ikey - 1
+            if not showfilter:
+                ikey = self.grouping._zero_based_ikey()
             # use fancy indexing to pull the values from the cells, back to original array
             newds = {}
             isort = None
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 8e89863..0d13ce5 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1540,6 +1540,14 @@ class Grouping:
             # enum path needs to go through hash, lazy-eval here
         return self._iKey
 
+    # ---------------------------------------------------------------
+    def _zero_based_ikey(self):
+        """Row numbers into a per group result: `ikey` less one, invalid for a row without a group."""
+        ikey = self.ikey
+        index = ikey - 1
+        index[ikey == 0] = INVALID_DICT[index.dtype.num]
+        return index
+
     # ---------------------------------------------------------------
     @property
     def base_index(self) -> int:
@@ -3537,7 +3545,8 @@ class Grouping:
             ikey = where(filter, self.ikey, 0)
             ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         elif self._packedwithfilter:
-            ncountkey = rc.BinCount(self.ikey, self.unique_count + 1)
+            ikey = self.ikey
+            ncountkey = rc.BinCount(ikey, self.unique_count + 1)
         else:
             # ncountgroup will call BinCount if it needs to
             ncountkey = self.ncountgroup
@@ -3546,8 +3555,8 @@ class Grouping:
         # skip if base 1
         countcol = ncountkey[base:]
         if transform:
-            if not showfilter and self.base_index == 1:
-                countcol = countcol[self.ikey - 1]
+            if not showfilter:
+                countcol = countcol[self._zero_based_ikey()]
             else:
                 countcol = countcol[ikey]
 
-- 
2.43.0


From f1a9d7533ffaa18ccf7582fef96ec6a08b5a87d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:58 +0000
Subject: [PATCH 053/127] fix: a filter passed to one group operation stayed in
 force for later ones

---
 riptable/rt_grouping.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 0d13ce5..8f48b64 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -1683,6 +1683,8 @@ class Grouping:
         ifirstgroup
         igroupreverse
         """
+        if self._packedwithfilter:
+            self.pack_by_group()
         if self.nCountGroup is None:
             if len(self.ikey):
                 self.nCountGroup = rc.BinCount(self.ikey, self.unique_count + 1)
@@ -2379,7 +2381,7 @@ class Grouping:
         the user should use...
         igroup, ifirstgroup, ncountgroup
 
-        If a filter is passed, it is remembered
+        A filter applies to this packing only: the next call without a filter packs all rows again.
         """
         # self.unsort()
         if Grouping.DebugMode:
@@ -2387,14 +2389,9 @@ class Grouping:
 
         # if we did not pack by filter, and we are alerady packed, and there is not a filter...
         # do nothing
-        if self._packed and filter is None:
-            if not self._packedwithfilter:
-                # keep lack of filter
-                return
-
-            if not mustrepack:
-                # keep existing filter
-                return
+        if self._packed and filter is None and not self._packedwithfilter:
+            # keep lack of filter
+            return
 
         self._packed = True
 
@@ -2665,7 +2662,8 @@ class Grouping:
 
         # check if they want full array returned (not a reduction)
         if not isreduce:
-            reverse_back = self.igroupreverse
+            # of the packing just made, which may be filtered
+            reverse_back = rc.ReverseShuffle(self.iGroup)
 
         # check if passing multiple arrays at same time
         if tups == 1:
@@ -3072,6 +3070,7 @@ class Grouping:
             raise TypeError(f"userfunc {userfunc!r} is not callable and cannot be applied to the dataset.")
 
         self.pack_by_group(filter, mustrepack=True)
+        iGroup, iFirstGroup, nCountGroup = self.iGroup, self.iFirstGroup, self.nCountGroup
 
         # pass in all columns including strings, datetime, etc
         npdict, values = self._get_calculate_dict(
@@ -3108,7 +3107,7 @@ class Grouping:
 
         for i in bins:
             # groupby ikey uses base-1 indexing
-            filter_group = self.as_filter(i)
+            filter_group = iGroup[iFirstGroup[i] : iFirstGroup[i] + nCountGroup[i]]
             if Grouping.DebugMode:
                 print("index", i, "filter is", filter_group)
 
@@ -3192,7 +3191,7 @@ class Grouping:
         if result_len == totalcallbacks:
             inv_delta = unique_rows - totalcallbacks
             if inv_delta > 0:
-                f = self.nCountGroup[1:] > 0
+                f = nCountGroup[1:] > 0
                 if Grouping.DebugMode:
                     print("reduce with a filter", f)
                 # if a reduce function was used, and some rows were filtered out
@@ -3204,14 +3203,14 @@ class Grouping:
 
             result = self._finalize_dataset(result, label_keys, label_keys.gbkeys, addkeys=(inv_delta <= 0), **kwargs)
         else:
-            if self.nCountGroup[0] > 0:
+            if nCountGroup[0] > 0:
                 # this group was probably filtered out, pass the user a row full of invalids
                 # only build the emptyGroup once
-                invcount = self.nCountGroup[0]
+                invcount = nCountGroup[0]
                 newdict = make_invalid_dict(invcount, result)
 
                 if Grouping.DebugMode:
-                    print(f"**should insert {invcount} at..{self.iFirstGroup[0]}")
+                    print(f"**should insert {invcount} at..{iFirstGroup[0]}")
                 inv_ds = TypeRegister.Dataset(newdict)
                 result = hstack([inv_ds, result])
 
@@ -3223,7 +3222,7 @@ class Grouping:
             # we need to ungroup them back into the original order
 
             # NOTE: what happens with filtered out groups (they are in the zero bin)
-            result[self.iGroup, :] = result.copy()
+            result[iGroup, :] = result.copy()
 
             # should this be an option
             try:
-- 
2.43.0


From de97fe3f5b73976b57b449dcad56f9f6d7578f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 054/127] fix: fill_forward and fill_backward of a Categorical
 returned uninitialised memory for rows without a group

---
 riptable/rt_groupbynumba.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_groupbynumba.py b/riptable/rt_groupbynumba.py
index b569908..3791908 100644
--- a/riptable/rt_groupbynumba.py
+++ b/riptable/rt_groupbynumba.py
@@ -13,7 +13,7 @@ from .rt_enum import (
     TypeRegister,
 )
 from .rt_groupbyops import GroupByOps
-from .rt_numpy import empty, empty_like
+from .rt_numpy import empty, empty_like, full
 from .numba.invalid_values import get_invalid, is_valid
 from .rt_fastarraynumba import _check_fill_values
 
@@ -123,8 +123,9 @@ class GroupbyNumba(GroupByOps):
 
             ret = None
             if not inplace:
-                # allocate for numba
-                ret = empty(len(inputdata), dtype=dtype)
+                # allocate for numba, rows without a group are not visited and stay invalid
+                dtype = np.dtype(dtype)
+                ret = full(len(inputdata), INVALID_DICT[dtype.num], dtype=dtype)
 
             nbfunc(iGroup, iFirstGroup, nCountGroup, binLowList[0], binHighList[0], inputdata, ret, *func_param)
 
@@ -417,6 +418,9 @@ class GroupbyNumba(GroupByOps):
         if ret is None:
             # inplace, just pass data as ret itself
             ret = data
+        else:
+            # rows without a group are not visited and keep their value
+            ret[:] = data
 
         if limit is None:
             limit = 0
-- 
2.43.0


From 69968467ac128a3aeab6a0b9920a6d32ce0264ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 055/127] fix: rolling_quantile failed for base-0 Categoricals
 and ema_weighted for any Categorical

---
 riptable/rt_groupbyops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index e2a5599..285feca 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -3032,7 +3032,7 @@ class GroupByOps(ABC):
 
         answers = []
 
-        window = min(window, len(self.grouping._iKey))
+        window = min(window, len(self.grouping.ikey))
 
         for quantile in q:
             funcParam = rolling_quantile_funcParam(quantile, window)
@@ -3489,7 +3489,7 @@ class GroupByOps(ABC):
             raise ValueError("ema_weighted function requires a decay_rate floating point value")
 
         # put in fake time array
-        time_array = np.arange(self._dataset.shape[0])
+        time_array = np.arange(len(self.grouping.ikey))
         return self._ema_op(
             GB_FUNCTIONS.GB_EMAWEIGHTED,
             *args,
-- 
2.43.0


From ad9d379d18a77eb01eca4015075a5b867138e29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 056/127] fix: cumulative and ema group operations rejected
 strided data and cummin/cummax gave values to rows without a group

---
 riptable/rt_grouping.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index 8f48b64..d443385 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -41,6 +41,7 @@ from .rt_misc import _use_autocomplete_placeholder
 from .rt_numpy import (
     _groupbycalculateall,
     _groupbycalculateallpack,
+    _unstrided,
     arange,
     argsort,
     combine2keys,
@@ -3440,7 +3441,13 @@ class Grouping:
             elif funcNum >= GB_FUNCTIONS.GB_CUMSUM:
                 # NOTE: filter is the third argument of the func_param tuple
                 # TODO: do you want to merge with iKey?
+                values = [_unstrided(v) for v in values]
+                func_param = tuple(_unstrided(p) for p in func_param)
                 accum = rc.EmaAll32(values, ikey, unique_rows, funcNum, func_param)
+                if GB_FUNCTIONS.GB_CUMNANMAX <= funcNum <= GB_FUNCTIONS.GB_CUMMIN:
+                    # the other cumulative functions return invalids for rows without a group
+                    for v in accum:
+                        v[ikey == 0] = INVALID_DICT[v.dtype.num]
 
             # basic not packed
             elif funcNum >= GB_FUNCTIONS.GB_SUM and funcNum < GB_FUNCTIONS.GB_FIRST:
-- 
2.43.0


From a0bb5d4d325972a8410934041e47ddc565f0c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:30 +0000
Subject: [PATCH 057/127] fix: Categorical.apply attached its key column in the
 wrong order to a reduction of one-row groups

---
 riptable/rt_categorical.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 9e6e8c4..357e095 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5192,7 +5192,14 @@ class Categorical(GroupByOps, FastArray):
         )
         # result is the same size as original, attach categorical (the key column) to result
         if result.shape[0] == len(clean_c):
-            self._attach_self_as_key_column(result)
+            if result.label_get_names():
+                # a reduction over groups of one row each, its rows are in the order of its keys
+                rows = clean_c.first_fancy
+                if clean_c.gb_keychain.sort_gb_data:
+                    rows = rows[clean_c.gb_keychain.isortrows]
+                self[rows]._attach_self_as_key_column(result)
+            else:
+                self._attach_self_as_key_column(result)
         return result
 
     # ------------------------------------------------------------
-- 
2.43.0


From c8e342bde6fac8152c6592300638aec59ad5c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:30 +0000
Subject: [PATCH 058/127] fix: apply with a filter failed to place its results
 (sorted labels, lexical groupings)

---
 riptable/rt_grouping.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index d443385..fefb2ee 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -3070,6 +3070,8 @@ class Grouping:
         if not callable(userfunc):
             raise TypeError(f"userfunc {userfunc!r} is not callable and cannot be applied to the dataset.")
 
+        # a lexical grouping is packed without the rows that have no group
+        self._packed = False
         self.pack_by_group(filter, mustrepack=True)
         iGroup, iFirstGroup, nCountGroup = self.iGroup, self.iFirstGroup, self.nCountGroup
 
@@ -3195,14 +3197,21 @@ class Grouping:
                 f = nCountGroup[1:] > 0
                 if Grouping.DebugMode:
                     print("reduce with a filter", f)
+                if label_keys.sort_gb_data:
+                    # the gbkeys are sorted
+                    isortrows = label_keys.isortrows
+                    rownum = f.cumsum() - 1
+                    f = f[isortrows]
+                    result = result[rownum[isortrows[f]], :]
                 # if a reduce function was used, and some rows were filtered out
                 # filter out the gbkeys the same way
                 for k, v in label_keys.gbkeys.items():
                     if Grouping.DebugMode:
                         print("adding column", k, "value", v, "filter", f)
                     result[k] = v[f]
-
-            result = self._finalize_dataset(result, label_keys, label_keys.gbkeys, addkeys=(inv_delta <= 0), **kwargs)
+                result.label_set_names(list(label_keys.gbkeys))
+            else:
+                result = self._finalize_dataset(result, label_keys, label_keys.gbkeys, addkeys=True, **kwargs)
         else:
             if nCountGroup[0] > 0:
                 # this group was probably filtered out, pass the user a row full of invalids
-- 
2.43.0


From 7f5bb1692145bbd00f374cfd09826fb17db35c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:30 +0000
Subject: [PATCH 059/127] fix: apply_reduce truncated the second column to the
 dtype of the first, passed filtered rows to the function and failed with
 showfilter or a sorted transform

---
 riptable/rt_groupbyops.py |  1 +
 riptable/rt_grouping.py   | 30 +++++++++++++++++++++++-------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_groupbyops.py b/riptable/rt_groupbyops.py
index 285feca..61e018a 100644
--- a/riptable/rt_groupbyops.py
+++ b/riptable/rt_groupbyops.py
@@ -450,6 +450,7 @@ class GroupByOps(ABC):
             label_keys=label_keys,
             func_param=func_param,
             dtype=dtype,
+            transform=transform,
             **kwargs,
         )
         if transform:
diff --git a/riptable/rt_grouping.py b/riptable/rt_grouping.py
index fefb2ee..6a6f82d 100644
--- a/riptable/rt_grouping.py
+++ b/riptable/rt_grouping.py
@@ -2543,6 +2543,7 @@ class Grouping:
         badrows=None,
         badcols=None,
         computable=True,
+        transform=False,
         **kwargs,
     ):
         """
@@ -2757,12 +2758,16 @@ class Grouping:
                 else:
                     if dtype is not None:
                         # if they specified a single dtype, allocate the array
-                        return_arr = empty((return_rows,), dtype=dtype)
-                        invalid = INVALID_DICT[dtype.num]
+                        result_dtype = np.dtype(dtype)
+                        return_arr = empty((return_rows,), dtype=result_dtype)
+                        invalid = INVALID_DICT[result_dtype.num]
 
                     # loop over all groups
                     # TODO: consider c++ loop? (i.e. vectorize this)
                     for i, (first, count) in enumerate(zip(ifirst, ncount)):
+                        if i < base_bin:
+                            # rows without a group
+                            continue
                         if count > 0:
                             last = first + count
 
@@ -2785,16 +2790,21 @@ class Grouping:
                                 else:
                                     # first time we got back data -- we can determine the dtype now
                                     if hasattr(result, "dtype"):
-                                        dtype = result.dtype
+                                        result_dtype = result.dtype
                                     else:
-                                        dtype = np.dtype(type(result))
-                                    return_arr = empty((return_rows,), dtype=dtype)
-                                    invalid = INVALID_DICT[dtype.num]
+                                        result_dtype = np.dtype(type(result))
+                                    return_arr = empty((return_rows,), dtype=result_dtype)
+                                    invalid = INVALID_DICT[result_dtype.num]
 
                             return_arr[i] = result
                         else:
                             needinvalidfill = True
 
+                    if return_arr is None:
+                        # every row was filtered out
+                        return_arr = empty((return_rows,), dtype=np.float64)
+                        invalid = np.nan
+
                     if return_arr.dtype.char != "O":
                         if needinvalidfill:
                             # what if everything is filtered out?
@@ -2815,6 +2825,8 @@ class Grouping:
                             raise TypeError(
                                 f"firstelement user function must return a scalar, tuple, or dict not {firstelement!r} with type: {type(firstelement)!r}"
                             )
+                    # the next column has its own dtype
+                    return_arr = None
 
             else:
                 # ----------------------------------------------
@@ -2881,6 +2893,10 @@ class Grouping:
                         #    raise ValueError("experimental numba not ready", len(inlist))
 
                     else:
+                        if ncount[0] > 0:
+                            # rows without a group
+                            for v in outputs:
+                                v.fill_invalid()
                         # loop over all the groups
                         for i in range(1, ifirst.shape[0]):
                             first = ifirst[i]
@@ -2946,7 +2962,7 @@ class Grouping:
         # reattach keys
         if label_keys is not None and isreduce:
             return_ds = self._finalize_dataset(
-                return_ds, label_keys, label_keys.gbkeys, showfilter=showfilter, addkeys=True, **kwargs
+                return_ds, label_keys, None, transform=transform, showfilter=showfilter, addkeys=True, **kwargs
             )
 
         return return_ds
-- 
2.43.0


From 33d88c4af6e2b4264c62424830050650131fa510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 060/127] fix: Dataset.quantile ignored the largest value of
 integer columns with invalids

---
 riptable/rt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index ff89ee1..f54fa7f 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -832,7 +832,7 @@ def quantile(arr: Optional[np.ndarray], q: List[float] = None):
             # pick a subset removing the invalid
             notvalid = count - cvalid
             if arr_sort.dtype.char in NumpyCharTypes.Integer:
-                valid = arr_sort[notvalid:-1]
+                valid = arr_sort[notvalid:]
             else:
                 valid = arr_sort[0:cvalid]
 
-- 
2.43.0


From 8e78b8ea2da3a82aaa44a51451a3ec4b60e22df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 061/127] fix: str replacement in column names dropped columns
 mapped to the same name

---
 riptable/rt_itemcontainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_itemcontainer.py b/riptable/rt_itemcontainer.py
index 7cf5fe1..64aece3 100644
--- a/riptable/rt_itemcontainer.py
+++ b/riptable/rt_itemcontainer.py
@@ -566,6 +566,9 @@ class ItemContainer:
             new_names.append(r)
 
         # only do this if necessary
+        if len(set(new_names)) != len(new_names):
+            raise ValueError(f"Cannot replace {old!r} with {new!r}: more than one item would have the same name.")
+
         if replace_count != 0:
             newdict = self._items.copy()
             self._items.clear()
-- 
2.43.0


From 64cdc3a347b4adaa01cad8009bc68e10ef48d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 062/127] fix: col_str_replace failed on a table with a sort
 view

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index ab0537f..63f8d57 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3789,7 +3789,7 @@ class Struct:
         replaced = self._all_items.item_str_replace(old, new, maxr=max)
         if replaced and self._col_sortlist is not None:
             # fix sorts
-            for i, name in self._col_sortlist:
+            for i, name in enumerate(self._col_sortlist):
                 r = name.replace(old, new, max)
                 if r != name:
                     self._col_sortlist[i] = r
-- 
2.43.0


From 854a0f9c4fd2cceb4265d45b8c8788f8aa1d880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 063/127] fix: assigning to a read-only property of a table
 corrupted it

---
 riptable/rt_struct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 63f8d57..94e4f66 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -551,6 +551,10 @@ class Struct:
                 # special protect certain names which would ruin class
                 warnings.warn(f"The method {name} is readonly and cannot be assigned.", stacklevel=2)
                 return AttributeError(f"The method {name} is readonly and cannot be assigned.")
+            elif isinstance(getattr(type(self), name, None), property):
+                # a read-only property of the class cannot be shadowed by an item either
+                warnings.warn(f"The property {name} is readonly and cannot be assigned.", stacklevel=2)
+                return AttributeError(f"The property {name} is readonly and cannot be assigned.")
             elif obj is _default_getattr_placeholder:
                 self._addnewitem(name, value)
             else:
-- 
2.43.0


From 48ca262c351a32d757e56dad7d97b60ab1157e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 064/127] fix: col_map renamed some columns before rejecting an
 invalid name

---
 riptable/rt_struct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 94e4f66..9dadb81 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3285,6 +3285,10 @@ class Struct:
                 and all(isinstance(_k, (str, bytes)) for _k in rename_dict.values())
             ):
                 raise TypeError("Name map must be a dictionary of string ids to string ids.")
+            # reject an invalid name before any column is renamed
+            for old, new in rename_dict.items():
+                if old != new and not self.is_valid_colname(new):
+                    raise ValueError(f"Invalid column name: {new}")
             if len(set(rename_dict.values()) & set(self)):
                 rename_dict, swaps = self._safe_reordering_of_renames(rename_dict)
             else:
-- 
2.43.0


From 7980184194ca8f1b4ebf25d27b2b32bdbdbabbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 065/127] fix: Dataset.tail(0) returned every row

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 08afb9d..ed570b7 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3042,7 +3042,7 @@ class Dataset(Struct):
             self._nrows = 0
             return self[:0, :]
         rows = min(self._nrows, n)
-        return self[-rows:, :]
+        return self[self._nrows - rows :, :]
 
     def dhead(self, n: int = 0) -> None:
         """
-- 
2.43.0


From a2a3efabd5056f96b478a8ddf4272133b63bbd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 066/127] fix: row-wise reductions rewrote the columns of the
 table

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index ed570b7..87ff27d 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6553,7 +6553,7 @@ class Dataset(Struct):
         if axis == 1:
             if fill_value is None:
                 # new fast path
-                return func(self.imatrix_make(), axis=1, **kwargs)
+                return func(self.imatrix_make(inplace=False), axis=1, **kwargs)
 
             if not any(noncomp):
                 # does not respect noncomputable cols.
-- 
2.43.0


From 8034e1a049559917cf244b71415a5fcbb1753fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 067/127] fix: Dataset.nanmin/nanmax failed with non-computable
 columns

---
 riptable/rt_dataset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 87ff27d..835bd21 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -151,6 +151,10 @@ if TYPE_CHECKING:
 
 ArrayCompatible = Union[list, abc.Iterable, np.ndarray]
 
+# Within the class body, min and max are the Dataset methods.
+_rt_min = min
+_rt_max = max
+
 
 class Dataset(Struct):
     """
@@ -6667,11 +6671,11 @@ class Dataset(Struct):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmedian, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmin(self, axis=0, as_dataset=True, fill_value=min):
+    def nanmin(self, axis=0, as_dataset=True, fill_value=_rt_min):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmin, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-    def nanmax(self, axis=0, as_dataset=True, fill_value=max):
+    def nanmax(self, axis=0, as_dataset=True, fill_value=_rt_max):
         """See documentation of :meth:`~rt.rt_dataset.Dataset.reduce`"""
         return self.reduce(nanmax, axis=axis, as_dataset=as_dataset, fill_value=fill_value)
 
-- 
2.43.0


From 32162042dcfd26921083d2dfa8c46019b754c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:15 +0000
Subject: [PATCH 068/127] fix: Dataset.equals ignored the shape or columns only
 one table has

---
 riptable/rt_dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 835bd21..3451a47 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8241,6 +8241,9 @@ class Dataset(Struct):
 
         if exact:
             try:
+                if self.shape != other.shape:
+                    raise ValueError("Datasets of different shapes are never equal.")
+
                 # create a nan mask -- where both are nans
                 # this does an inplace and
                 result = ds_isnan(self)
@@ -8280,7 +8283,11 @@ class Dataset(Struct):
                 )
                 result = Dataset({})
                 for colname in compare_result:
-                    result[colname] = nan_result[colname] | compare_result[colname]
+                    if colname in self and colname in other:
+                        result[colname] = nan_result[colname] | compare_result[colname]
+                    else:
+                        # a column which only one of the Datasets has is never equal
+                        result[colname] = compare_result[colname]
             except:
                 result = False
                 if axis != 1:
-- 
2.43.0


From 31c93beb932b6d3bda53b185b882505ea0a59efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:16 +0000
Subject: [PATCH 069/127] fix: duplicated/drop_duplicates failed or invented
 rows for unused categories

---
 riptable/rt_dataset.py | 68 ++++++++++++++++--------------------------
 1 file changed, 26 insertions(+), 42 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 3451a47..f5ab809 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3600,36 +3600,39 @@ class Dataset(Struct):
             if not isinstance(subset, list):
                 subset = [subset]
 
+        rows = self._undup_rows(subset, keep)
+        result = ones(self.get_nrows(), dtype=bool)
+        result[rows] = False
+        return result
+
+    # -------------------------------------------------------------
+    def _undup_rows(self, subset: List[str], keep: Union[bool, str]) -> np.ndarray:
+        """
+        Row numbers that remain when duplicates (of the columns in `subset`) are dropped.
+        The keys are in group order. Groups without a row (unused categories) have no row number.
+        """
         g = self.gbu(subset).get_groupings()
         igroup = g["iGroup"]
-        ifirstgroup = g["iFirstGroup"]
-        ncountgroup = g["nCountGroup"]
-
-        result = ones(igroup.shape, dtype=bool)
+        # remove invalid bin
+        ifirstgroup = g["iFirstGroup"][1:]
+        ncountgroup = g["nCountGroup"][1:]
 
-        # return row of first occurrence
+        # row of first occurrence
         if keep == "first":
-            # remove invalid bin
-            ifirstgroup = ifirstgroup[1:]
-            result[igroup[ifirstgroup]] = False
+            pos = ifirstgroup[ncountgroup > 0]
 
-        # return row of last occurrence (however, keys will be in order of their first occurrence)
+        # row of last occurrence (however, keys will be in order of their first occurrence)
         elif keep == "last":
-            lastindex = ifirstgroup[-1] + ncountgroup[-1] - 1
+            pos = (ifirstgroup + ncountgroup - 1)[ncountgroup > 0]
 
-            # skip invalid and shift everything
-            ilast = ifirstgroup[2:] - 1
-            result[igroup[ilast]] = False
-
-            # set the last one
-            result[igroup[lastindex]] = False
-
-        # only return rows that occur once
+        # only rows that occur once
         elif keep is False:
-            ifirstgroup = ifirstgroup[ncountgroup == 1]
-            result[igroup[ifirstgroup]] = False
+            pos = ifirstgroup[ncountgroup == 1]
 
-        return result
+        else:
+            raise ValueError(f"Got unexpected value for keep {keep}.")
+
+        return igroup[pos]
 
     # -------------------------------------------------------------
     def drop_duplicates(self, subset=None, keep: Union[bool, str] = "first", inplace: bool = False) -> Self:
@@ -3746,27 +3749,8 @@ class Dataset(Struct):
             if not isinstance(subset, list):
                 subset = [subset]
 
-        gb = self.gbu(subset)
-
-        # return row of first occurrence
-        if keep == "first":
-            deduplicated = gb.first()
-            deduplicated.label_remove()
-
-        # return row of last occurrence (however, keys will be in order of their first occurrence)
-        elif keep == "last":
-            deduplicated = gb.last()
-            deduplicated.label_remove()
-
-        # only return rows that occur once
-        elif keep is False:
-            non_duplicated = gb.count().Count == 1
-            deduplicated = gb.first()
-            deduplicated.label_remove()
-            deduplicated = deduplicated[non_duplicated, :]
-
-        else:
-            raise ValueError(f"Got unexpected value for keep {keep}.")
+        deduplicated = self[self._undup_rows(subset, keep), :]
+        deduplicated.label_remove()
 
         # replace all columns in dictionary
         if inplace is True:
-- 
2.43.0


From df109202d1a0ebc7cb4ea54696f94ee9bbd51a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 070/127] fix: build imatrix in C order without transposing it

---
 riptable/rt_imatrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_imatrix.py b/riptable/rt_imatrix.py
index 92d0d08..a19deb1 100644
--- a/riptable/rt_imatrix.py
+++ b/riptable/rt_imatrix.py
@@ -52,7 +52,10 @@ class IMatrix:
             colnames = [*ds.keys()]
 
         # make the matrix from the dataset
-        self._imatrix = vstack([*ds[colnames].values()], dtype=dtype, order=order)
+        # one column of the matrix per column of the dataset, whatever the memory order
+        self._imatrix = vstack([*ds[colnames].values()], dtype=dtype, order="F")
+        if order != "F":
+            self._imatrix = self._imatrix.copy(order=order)
 
         # make a dataset from the matrix
         self._dataset = TypeRegister.Dataset({c: self._imatrix[:, i] for i, c in enumerate(colnames)})
-- 
2.43.0


From d64b64dc4d01b0f16082bd9048e600e1f9dc47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 071/127] fix: keep the class of id columns in Dataset.melt

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index f5ab809..0e42521 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -6833,7 +6833,7 @@ class Dataset(Struct):
                 # note: multikey categorical expands to a tuple of arrays
                 # previously raised an error on expand array
                 id_data = id_data.expand_array
-            mdata[col] = np.tile(id_data._np, K)
+            mdata[col] = hstack([id_data] * K) if K > 0 else id_data[:0]
 
         mdata[var_name] = FastArray(list(tempdict.keys())).repeat(N)
         mdata[value_name] = hstack(list(tempdict.values()))
-- 
2.43.0


From 550ebcdf54edbe27602b40b357465fa2b39fd184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 072/127] fix: do not count filtered rows as duplicates in
 Dataset.pivot

---
 riptable/rt_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 0e42521..709a9fd 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8076,7 +8076,10 @@ class Dataset(Struct):
         row_len = len(ds_crd) + 1
 
         # check for duplicates
-        ncountgroup = g.ncountgroup
+        # (rows without a label or column, such as the filtered ones, are in the 0 bins and are not reshaped)
+        ncountgroup = g.ncountgroup.copy()
+        ncountgroup[:row_len] = 0
+        ncountgroup[::row_len] = 0
         pos = ncountgroup.argmax()
         if ncountgroup[pos] > 1:
             # find out where a duplicate is
-- 
2.43.0


From 90067ba1ce1ba9d12740d55ae149aa531804520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 073/127] fix: name pivoted columns by category, not by code,
 for multikey columns

---
 riptable/rt_dataset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 709a9fd..e651131 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8091,7 +8091,10 @@ class Dataset(Struct):
         # sub function to slice up original arrays
         def make_dataset(coldict, val, newds):
             # colnames must be unicode
-            colnames = [colstr.astype("U") for colstr in coldict.values()]
+            colnames = [
+                (colstr.expand_array if TypeRegister.is_binned_array(colstr) else colstr).astype("U")
+                for colstr in coldict.values()
+            ]
             innerloop = len(colnames)
             outerloop = len(colnames[0])
 
-- 
2.43.0


From 51a7a943735e4db21b2d1b40de691fcef8fe97c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 074/127] fix: handle empty lists in Dataset.from_jagged_dict
 stacked

---
 riptable/rt_dataset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index e651131..d399060 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7744,7 +7744,9 @@ class Dataset(Struct):
             col_done = [0] * len(type_cols)
             for j, type_col in enumerate(type_cols):
                 (cols[j], col_done[j]) = (
-                    (type_col, True) if len(type_col) == num_rows else (np.zeros(num_rows, type_col.dtype), False)
+                    (type_col, True)
+                    if len(type_col) == num_rows and num_rows_ar.all()
+                    else (np.zeros(num_rows, type_col.dtype), False)
                 )
 
             # Fill the output columns, as necessary
@@ -7753,6 +7755,8 @@ class Dataset(Struct):
             for in_row_num in range(num_in_rows):
                 num_repeats = 1
                 num_out_rows = num_rows_ar[in_row_num]
+                if num_out_rows == 0:
+                    continue  # an empty list contributes no combination
                 for j, vals in enumerate(dct.values()):
                     if col_done[j]:
                         continue
-- 
2.43.0


From 599f070a4f6856ba0fbabd76466b867118051e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:02 +0000
Subject: [PATCH 075/127] fix: from_jagged_rows keeps its input and sizes
 string columns correctly

---
 riptable/rt_dataset.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index d399060..3748681 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -7580,6 +7580,8 @@ class Dataset(Struct):
 
         # get final dataset dims, flip all input to array
         nrows = len(rows)
+        # the caller's list is not modified
+        rows = list(rows)
 
         # always favor bytestrings
         dt = "S"
@@ -7605,28 +7607,24 @@ class Dataset(Struct):
                 dt = "U"
 
         ncols = len(max(rows, key=len))
-        # get the string itemsize so the max string fits
-        width = max(rows, key=lambda x: x.itemsize).itemsize
+        # get the number of characters so the max string fits
+        width = max(r.itemsize // 4 if r.dtype.char == "U" else r.itemsize for r in rows)
 
         # set fill value
         if fill_value is not None:
             # match to dtype
-            if isinstance(fill_value, str):
+            inv = fill_value if isinstance(fill_value, (str, bytes)) else str(fill_value)
+            if isinstance(inv, str):
                 if dt == "S":
-                    inv = fill_value.encode()
-            elif isinstance(fill_value, bytes):
-                if dt == "U":
-                    inv = fill_value.decode()
-            else:
-                inv = str(fill_value)
+                    inv = inv.encode()
+            elif dt == "U":
+                inv = inv.decode()
         else:
             # use default
             inv = INVALID_DICT[np.dtype(dt).num]
 
         # make sure final array itemsize can fit all strings
-        if dt == "U":
-            width /= 4
-        final_dt = dt + str(width)
+        final_dt = dt + str(max(width, len(inv)))
 
         # build final dict, column by column
         # this is slow for larger data because it has to loop over rows
-- 
2.43.0


From 470f7dc03465cf7391c54e0eb70f66e51d22d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 076/127] fix: multikey ismember against an empty table finds
 nothing instead of failing

---
 riptable/rt_numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index acd3007..e2cd00f 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1330,6 +1330,9 @@ def ismember(
         is_multikey = True
         if all(len(x) == 0 for x in a):
             return ismember([], [])
+        if all(len(x) == 0 for x in b):
+            # nothing is a member of an empty table
+            return ismember(a[0], [])
 
     # different number of key columns
     if is_multikey:
-- 
2.43.0


From 8ce8f462f0d9a387ffe812432e17331d9a1cbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 077/127] fix: include the filtered rows in the group index of
 a lexicographic grouping

---
 riptable/rt_numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index e2cd00f..02dac09 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -2287,8 +2287,9 @@ def groupbylex(list_arrays, filter=None, cutoffs=None, base_index: int = 1, rec:
             # ikey has to get 0s where the filter is false
             iKey[filterfalse] = 0
 
-            # the invalids are after all the valids in the iGroup
-            iFirstGroup[0] = len(filtertrue)
+            # the invalids are before all the valids in the iGroup, same as when grouping by hash
+            iGroup = hstack((filterfalse, iGroup))
+            iFirstGroup[1:] += len(filterfalse)
 
         mkdict = {
             "iKey": iKey,
-- 
2.43.0


From b367578efa4942f258a5511bc8f1464156cda487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 078/127] fix: merge2 with copy=False keeps the categories of
 Categorical columns

---
 riptable/rt_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 1dc93c9..fe755f6 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -2705,7 +2705,8 @@ def merge2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = arr.view()
+        # a view of a Categorical has no categories; its shallow copy shares the data
+        new_arr = arr.copy(deep=False) if isinstance(arr, Categorical) else arr.view()
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From 7a6b5f360b2265902be03155286ab839a2daabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 079/127] fix: merge2 with keep on the left side keeps rows
 without a key

---
 riptable/rt_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index fe755f6..97382d7 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1148,7 +1148,8 @@ def _build_left_fancyindex(
     # Each row in 'left' (the original Dataset) having gbkey value K needs to be repeated in-place M times,
     # where M is the multiplicity of that row's key within the *right* Grouping. If the key K from the left Grouping
     # doesn't exist in the right Grouping, those rows get a repeat value of '1' (so they're kept as-is).
-    left_ikey = _get_keep_ikey(left_keygroup, keep_left)
+    # N.B. rows with a null/NA key are kept too (when non-matching rows are), so they must be included here.
+    left_ikey = _get_keep_ikey_with_null(left_keygroup, keep_left)
     left_repeats = right_group_multiplicity_as_left[left_ikey]
     assert all(isnotnan(left_repeats)), "Invalid entries found in 'left_repeats'."
     # assert not hasanynan(left_repeats), "Invalid entries found in 'left_repeats'."
@@ -1197,7 +1198,7 @@ def _build_left_fancyindex(
         _fused_arange_repeat(left_repeats_cumsum, left_fancyindex)
     else:
         # Get the ifirstkey/ilastkey for the left keygroup.
-        left_ikey = _get_keep_ifirstlastkey(left_keygroup, keep_left)
+        left_ikey = _get_keep_ifirstlastkey_with_null(left_keygroup, keep_left)
 
         # When dropping duplicates, we're only keeping some of the rows; so in contrast to the
         # case above where we're (potentially) keeping all of the rows from the left Dataset,
-- 
2.43.0


From 0d61a68242458ecc874dd8e1148bb3129498e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 080/127] fix: outer merge2 with keep on the right side picks
 the right rows for partly missing keys

---
 riptable/rt_merge.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 97382d7..834a8a0 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -1473,6 +1473,9 @@ def _create_merge_fancy_indices(
 
                 # Get the first/last row for each group.
                 keep_ifirstlastkey = _get_keep_ifirstlastkey_with_null(right_groupby_keygroup, keep[1])
+                if right_groupby_keygroup.ncountgroup[0] == 0:
+                    # No entry for the NA/invalid group, so the first entry is for group 1.
+                    join_invalid_groupby_groups = join_invalid_groupby_groups - 1
                 join_invalid_groupby_rows = keep_ifirstlastkey[join_invalid_groupby_groups]
 
                 # Get the other right-only rows (those with valid join keys).
@@ -1608,7 +1611,10 @@ def _create_merge_fancy_indices(
                 recursive_how = "left"
             else:
                 # Left table is empty, so this decays to a right join.
+                # No row can match, so duplicates (for 'keep') are determined by the groupby grouping.
                 recursive_how = "right"
+                if right_groupby_keygroup is not None:
+                    right_keygroup = right_groupby_keygroup
 
             join_indices = _create_merge_fancy_indices(
                 left_keygroup, right_keygroup, right_groupby_keygroup, recursive_how, keep
@@ -2040,6 +2046,7 @@ def _get_or_create_keygroup(
 
         valid_join_tuples_mask: Optional[FastArray] = None
         valid_groupby_tuples_mask: Optional[FastArray] = None
+        all_groupby_tuples_valid = False
         if force_invalids:
             for keycol in keycols:
                 isvalid = _create_column_valid_mask(keycol)
@@ -2058,8 +2065,9 @@ def _get_or_create_keygroup(
                     # If 'isvalid' is None, that's considered to be the same as a boolean array of the correct
                     # length with all True elements; since we logical-OR the masks together for the groupby-grouping,
                     # when 'isvalid' is None we set the valid groupby tuples mask to None.
-                    if isvalid is None:
+                    if isvalid is None or all_groupby_tuples_valid:
                         valid_groupby_tuples_mask = None
+                        all_groupby_tuples_valid = True
                     elif valid_groupby_tuples_mask is None:
                         # Need to copy 'isvalid' to avoid sharing the same instance with 'valid_join_tuples_mask',
                         # which'll lead to them incorrectly having the same data (since we're updating in-place).
-- 
2.43.0


From 8c16542d8a320bbe7a30893b2f1311005f1d0e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:10 +0000
Subject: [PATCH 081/127] fix: outer merge does not truncate right key values

---
 riptable/rt_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index 834a8a0..e16595f 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -3173,9 +3173,10 @@ def merge(
                 out[field] = right[field]
         elif how == "outer":
             in_right_not_in_left = mask_andi(isnan(p_left), isnotnan(p_right))
+            p_stacked = where(in_right_not_in_left, p_right.astype(np.int64) + left.shape[0], p_left.astype(np.int64))
             for field in intersection_cols:
-                out[field] = left[field][p_left]
-                out[field][in_right_not_in_left] = right[field][p_right[in_right_not_in_left]]
+                # stacked, because the right column may need a wider type
+                out[field] = hstack((left[field], right[field]))[p_stacked]
         else:
             raise ValueError(f"The value '{how}' is not valid for the 'how' parameter.")
 
-- 
2.43.0


From fd44dfa2b72f415fc12634a25e0757435f894858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:27 +0000
Subject: [PATCH 082/127] fix: merge_asof does not make its input columns
 read-only nor drop column classes with copy=False

---
 riptable/rt_merge.py      | 3 ++-
 riptable/rt_merge_asof.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index e16595f..e91ab3d 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4246,7 +4246,8 @@ class _AsOfMerge:
 
         def readonly_array_wrapper(arr: FastArray) -> FastArray:
             """Create a read-only view of an array."""
-            new_arr = FastArray(arr)
+            # a view of a Categorical has no categories; its shallow copy shares the data
+            new_arr = arr.copy(deep=False) if TypeRegister.is_binned_array(arr) else arr.view()
             new_arr.flags.writeable = False
             return new_arr
 
diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index 1b19f6c..f1e759c 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -17,6 +17,7 @@ import numba as nb
 from .config import get_global_settings
 from .numba.indexing import scalar_or_lookup
 from .numba.invalid_values import get_invalid, get_max_valid, get_min_valid, is_valid
+from .rt_enum import TypeRegister
 from .rt_fastarray import FastArray
 from .rt_grouping import Grouping
 from .rt_datetime import Date, DateTimeNano, DateTimeNanoScalar, TimeSpanScalar
@@ -1660,7 +1661,8 @@ def merge_asof2(
 
     def readonly_array_wrapper(arr: FastArray) -> FastArray:
         """Create a read-only view of an array."""
-        new_arr = FastArray(arr)
+        # a view of a Categorical has no categories; its shallow copy shares the data
+        new_arr = arr.copy(deep=False) if TypeRegister.is_binned_array(arr) else arr.view()
         new_arr.flags.writeable = False
         return new_arr
 
-- 
2.43.0


From a9ad934dc69a16d1e8b3b9c6aad432ca6f949915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:27 +0000
Subject: [PATCH 083/127] fix: merge_asof nearest works for unsigned keys

---
 riptable/rt_merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge.py b/riptable/rt_merge.py
index e91ab3d..21f4e19 100644
--- a/riptable/rt_merge.py
+++ b/riptable/rt_merge.py
@@ -4188,7 +4188,7 @@ class _AsOfMerge:
                 right_on_col if right_fancyindex_backward is None else right_on_col[right_fancyindex_backward]
             )
             f_forward_closer |= isnan(right_on_backward)
-            backward_distance = abs(left_on_backward - right_on_backward)
+            backward_distance = left_on_backward - right_on_backward
             del left_on_backward
             del right_on_backward
             f_forward_closer |= isnan(backward_distance)
@@ -4197,7 +4197,8 @@ class _AsOfMerge:
             right_on_forward = (
                 right_on_col if right_fancyindex_forward is None else right_on_col[right_fancyindex_forward]
             )
-            forward_distance = abs(left_on_forward - right_on_forward)
+            # N.B. the later minus the earlier, as the distance could not be represented otherwise for unsigned types
+            forward_distance = right_on_forward - left_on_forward
 
             f_forward_closer |= forward_distance < backward_distance
             del backward_distance
-- 
2.43.0


From 2b4aa89d1292bb6fbc775bb390af0538e97c6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:27 +0000
Subject: [PATCH 084/127] fix: group index of a grouping without rows is empty

---
 riptable/rt_numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_numpy.py b/riptable/rt_numpy.py
index 02dac09..6b4dea8 100644
--- a/riptable/rt_numpy.py
+++ b/riptable/rt_numpy.py
@@ -1994,7 +1994,11 @@ def groupbypack(ikey, ncountgroup, unique_count=None, cutoffs=None) -> dict:
 
             # get the unique_count ratio
             ratio = len(ikey) / unique_count
-            if len(ikey) > 1_000_000 and ratio < 40:
+            if len(ikey) == 0:
+                # no rows: every bin is empty
+                nCountGroup, iFirstGroup = zeros(unique_count, dtype=np.int32), zeros(unique_count, dtype=np.int32)
+                iGroup = empty(0, dtype=np.int32)
+            elif len(ikey) > 1_000_000 and ratio < 40:
                 nCountGroup = rc.BinCount(ikey, unique_count)
                 iGroup, iFirstGroup = rc.GroupFromBinCount(ikey, nCountGroup)
             else:
-- 
2.43.0


From 3d4788e0498f06ca2db99878565462648fb35c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:27 +0000
Subject: [PATCH 085/127] fix: merge_asof2 accepts TimeSpan tolerances

---
 riptable/rt_merge_asof.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_merge_asof.py b/riptable/rt_merge_asof.py
index f1e759c..9c76f76 100644
--- a/riptable/rt_merge_asof.py
+++ b/riptable/rt_merge_asof.py
@@ -1167,8 +1167,10 @@ def _validate_and_normalize_tolerance(
     # If 'tolerance' is a value of a signed type, don't allow negative values;
     # the 'as-of' logic won't work correctly if given a negative value.
     negative_tol_errmsg = "Negative tolerance values not supported for as-of merges."
-    if isinstance(tolerance, float) or (
-        isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating)
+    # N.B. TimeSpanScalar is a floating-point scalar too; it's handled below.
+    if not isinstance(tolerance, TimeSpanScalar) and (
+        isinstance(tolerance, float)
+        or (isinstance(tolerance, np.generic) and np.issubdtype(tolerance.dtype, np.floating))
     ):
         if tolerance < 0 or isnan(tolerance):
             raise ValueError(negative_tol_errmsg)
-- 
2.43.0


From 485c267bf86d9ac7d04555f7477d4caedf222e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:54 +0000
Subject: [PATCH 086/127] fix: uncompressed SDS files keep arrays listed next
 to nested containers or empty arrays

---
 riptable/rt_sds.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riptable/rt_sds.py b/riptable/rt_sds.py
index 9c0670e..702ceea 100644
--- a/riptable/rt_sds.py
+++ b/riptable/rt_sds.py
@@ -2446,6 +2446,11 @@ def compress_dataset_internal(
 
     # TODO - a gateway check could go here
 
+    # The low-level writer miscounts the arrays of an uncompressed file which also lists nested containers
+    # (entries without an array) or empty arrays, and some of its arrays would be lost on load.
+    if comptype == CompressionType.Uncompressed and any(arr is None or len(arr) == 0 for arr in listarrays):
+        comptype = CompressionType.ZStd
+
     if sharename is None:
         if SDSVerbose:
             print(f"calling rc.CompressFile {filename}")
-- 
2.43.0


From 414ac083a69fea17d7e91c5b0cb426e7834546ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:22 +0000
Subject: [PATCH 087/127] fix: DateTimeNano keeps its time zone and instant
 through Arrow

---
 riptable/rt_datetime.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index e549427..6d8a672 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6379,7 +6379,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
         # Convert the pyarrow array's timezone (id from tz database) to a riptable TZ string,
         # then set that on the output array.
-        from_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
+        # The values of a timezone-aware pyarrow array are UTC; the timezone is only used for display.
+        to_tz_str = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(arr.type.tz)
 
         # Create a view of the underlying data as int64 epoch-nanoseconds.
         arr_int64 = arr.view(pa.int64())
@@ -6388,7 +6389,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         # depending on which options the caller has specified.
         if arr.null_count == 0:
             arr_int64_np = arr_int64.to_numpy(zero_copy_only=not writable, writable=writable)
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
         elif zero_copy_only:
             raise RuntimeError("Unable to perform zero-copy conversion from an input array containing nulls.")
         else:
@@ -6411,7 +6412,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
             # TODO: If writable=True here, it seems like we'll do a 2nd copy of the data? Is there any way to avoid it?
             arr_int64_np = arr_int64_filled.to_numpy(zero_copy_only=not writable, writable=writable)
 
-            return DateTimeNano(arr_int64_np, from_tz=from_tz_str)
+            return DateTimeNano(arr_int64_np, from_tz="UTC", to_tz=to_tz_str)
 
     def to_arrow(
         self,
@@ -6439,7 +6440,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         import pyarrow as pa
 
         # Get the tz db / ICU timezone name.
-        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._from_tz)
+        tz_name = TypeRegister.TimeZone.normalize_tz_to_tzdb_name(self._timezone._to_tz)
 
         # Create the corresponding pyarrow type.
         arr_type = pa.timestamp("ns", tz=tz_name)
-- 
2.43.0


From 09b0017b975dfb844957ffc28af7a4889b92b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:22 +0000
Subject: [PATCH 088/127] fix: base-0 Categorical codes are not shifted by
 to_arrow

---
 riptable/rt_categorical.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_categorical.py b/riptable/rt_categorical.py
index 357e095..b1826b4 100644
--- a/riptable/rt_categorical.py
+++ b/riptable/rt_categorical.py
@@ -5840,9 +5840,9 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
+            # For self.base_index == 0, we can use the codes directly (iKey is always 1-based);
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
@@ -6034,9 +6034,9 @@ class Categorical(GroupByOps, FastArray):
             if not invalids_mask.any():
                 invalids_mask = None
 
-            # For self.base_index == 0, we can use iKey directly;
+            # For self.base_index == 0, we can use the codes directly (iKey is always 1-based);
             # for self.base_index == 1, we need to create a new 0-based iKey to pass to pyarrow.
-            indices = self.grouping.ikey
+            indices = self._fa
             if self.base_index != 0:
                 # It's important we DON'T do this in-place, as we don't want to modify the ikey array,
                 # as that'll break this Categorical instance.
-- 
2.43.0


From 9e60c30ed9b2d978e798f6bd3d369da64a87cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:22 +0000
Subject: [PATCH 089/127] fix: Dataset from a DataFrame converts pandas
 extension dtypes

---
 riptable/rt_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index 3748681..be70665 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -634,6 +634,9 @@ class Dataset(Struct):
             # categoricals will be preserved in _possibly_convert
             if hasattr(col, "cat"):
                 pass
+            # so are the other extension types (nullable integers, time zone aware datetimes)
+            elif not isinstance(getattr(col, "dtype", None), np.dtype):
+                pass
             # series column (added with underlying array)
             elif hasattr(col, "values"):
                 col = col.values
-- 
2.43.0


From b32f0fa4b56badc6775b7cf2e40a6a9ab7d8e412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:22 +0000
Subject: [PATCH 090/127] fix: pandas conversion keeps missing values and time
 units

---
 riptable/Utils/pandas_utils.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/riptable/Utils/pandas_utils.py b/riptable/Utils/pandas_utils.py
index 4774ba7..a93709f 100644
--- a/riptable/Utils/pandas_utils.py
+++ b/riptable/Utils/pandas_utils.py
@@ -146,26 +146,29 @@ def pandas_series_to_riptable(series: Union["pd.Series", "pd.Categorical"], tz:
             _tz = str(dtype.tz)
         except AttributeError:
             _tz = tz
-        return TypeRegister.DateTimeNano(np.asarray(series, dtype="i8"), from_tz="UTC", to_tz=_tz)
+        return TypeRegister.DateTimeNano(np.asarray(series, dtype="M8[ns]").view("i8"), from_tz="UTC", to_tz=_tz)
     elif dtype_kind == "m":
-        arr = TypeRegister.FastArray(series, dtype="i8")
+        arr = TypeRegister.FastArray(np.asarray(series, dtype="m8[ns]").view("i8"))
         arr = TypeRegister.TimeSpan(arr)
         arr[arr == pd.NaT.value] = arr.inv
         return arr
     elif dtype_kind == "O":
         if len(series) > 0:
-            notnull = np.where(series.notnull())[0]
+            isnull = np.asarray(series.isnull(), dtype=bool)
+            notnull = np.where(~isnull)[0]
             all_null = len(notnull) == 0
             first_element = np.nan if all_null else series.iloc[notnull[0]]
+            values = np.array(series, dtype=object)
             if isinstance(first_element, (int, float, np.number)):
-                # An object array with number (int or float) in it probably means there is
-                # NaN in it so convert to float64.
-                new_col = np.asarray(series, dtype="f8")
+                values[isnull] = np.nan
+                new_col = np.asarray(values, dtype="f8")
             else:
+                # a missing string is an empty string, not the text of pandas' missing value
+                values[isnull] = ""
                 try:
-                    new_col = np.asarray(series, dtype="S")
+                    new_col = np.asarray(values, dtype="S")
                 except UnicodeEncodeError:
-                    new_col = np.asarray(series, dtype="U")
+                    new_col = np.asarray(values, dtype="U")
         else:
             new_col = np.asarray(series, dtype="S")
         return TypeRegister.FastArray(new_col)
@@ -207,7 +210,8 @@ def fastarray_to_pandas_series(
         categories = _to_unicode_if_string(arr.category_array) if unicode else arr.category_array
         out = pd.Series(pd.Categorical.from_codes(codes, categories=categories))
     elif isinstance(arr, TypeRegister.DateTimeNano):
-        utc_datetime = pd.DatetimeIndex(arr._np, tz="UTC")
+        # riptable's invalid datetimes (zero or the integer sentinel) are NaT in pandas
+        utc_datetime = pd.DatetimeIndex(np.where(arr.isnan(), pd.NaT.value, arr._np), tz="UTC")
         tz_datetime = utc_datetime.tz_convert(arr._timezone._to_tz)
         out = pd.Series(tz_datetime)
     elif isinstance(arr, TypeRegister.TimeSpan):
-- 
2.43.0


From 4d95948633746adf7adafdfb62eb0b512915b7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 091/127] fix: pickling an uncompressed unicode array keeps it
 unicode

---
 riptable/rt_fastarray.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index fd1ddb8..41d0293 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -254,6 +254,14 @@ def FA_FROM_UINT8(uint8arr):
     return rc.CompressDecompressArrays([uint8arr], 1)[0]
 
 
+# --------------------------------------------------------------
+def FA_FROM_NDARRAY(arr, cls):
+    """
+    Used in de-pickling when the array was not compressed; a view keeps unicode arrays unicode
+    """
+    return arr.view(cls)
+
+
 # --------------------------------------------------------------
 def FA_FROM_BYTESTRING(bytestring):
     """
@@ -869,13 +877,7 @@ class FastArray(np.ndarray):
             carr = rc.CompressDecompressArrays([self], 0)[0]
             return (FA_FROM_UINT8, (carr.view(np.ndarray),))
         else:
-            return (
-                cls.__new__,
-                (
-                    cls,
-                    self.view(np.ndarray),
-                ),
-            )
+            return (FA_FROM_NDARRAY, (self.view(np.ndarray), cls))
 
     # --------------------------------------------------------------------------
     @classmethod
-- 
2.43.0


From a8de185048c402dc39058715ad3415ab345f8d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 092/127] fix: nulls of widened Arrow integer arrays stay
 invalid

---
 riptable/rt_fastarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 41d0293..a26950d 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5838,6 +5838,8 @@ class FastArray(np.ndarray):
                 if zero_copy_only:
                     raise ValueError("Cannot perform a zero-copy conversion that requires widening.")
                 arr: pa.Array = arr.cast(arr_pa_dtype_widened)
+                # Nulls must be filled with the invalid of the widened dtype; the narrow one is a valid value there.
+                arr_rt_inv = INVALID_DICT[np.dtype(output_dtype).num]
 
             # fill_null will always copy, even if null_count is zero so we have to do the work ourselves to check
             if arr.null_count > 0:
-- 
2.43.0


From 8b43a58f6b513d7714669b829a82b75cc7ece280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:40 +0000
Subject: [PATCH 093/127] fix: sliced Arrow fixed-size binary arrays keep their
 offset and length

---
 riptable/rt_fastarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index a26950d..4b96df1 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -5924,7 +5924,7 @@ class FastArray(np.ndarray):
             buf = np.frombuffer(
                 arr.buffers()[1],
                 dtype="S" + str(arr.type.byte_width),
-            )
+            )[arr.offset : arr.offset + len(arr)]
 
             if writable and arr.null_count == 0:  # already made a copy if null_count != 0
                 result = FastArray(np.copy(buf))
-- 
2.43.0


From 1984599fcc0e81a76ac782b8b0dec2fe17eab6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:09 +0000
Subject: [PATCH 094/127] fix: astype with copy=False converts sentinels like
 the default

---
 riptable/rt_fastarray.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 4b96df1..8d12d2f 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -1428,7 +1428,9 @@ class FastArray(np.ndarray):
         # 19 = UNICODE string
         to_num = np.dtype(dtype).num
 
-        if order == "K" and subok and copy and self.dtype.num <= 13 and to_num <= 13:
+        # copy=False only avoids the copy when there is nothing to convert
+        needs_convert = copy or np.dtype(dtype) != self.dtype
+        if order == "K" and subok and needs_convert and self.dtype.num <= 13 and to_num <= 13:
             # check for contiguous in one or two dimensions
             if self.flags.f_contiguous or self.flags.c_contiguous:
                 # perform a safe conversion understanding sentinels
-- 
2.43.0


From 158207d0c0c67b440d6d6078671765d351550bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:09 +0000
Subject: [PATCH 095/127] fix: daylight saving tables of Sydney and Dublin
 follow the tz database

---
 riptable/rt_timezone.py | 355 ++++++++++++++++++++--------------------
 1 file changed, 173 insertions(+), 182 deletions(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index 50e920a..fd9d505 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -311,24 +311,26 @@ NYC_OFFSET_NS = 5 * NANOS_PER_HOUR
 
 DST_CUTOFFS_DUBLIN = FastArray(
     [
+        "1970-01-01 00:00:00",
+        "1971-10-31 03:00:00",
         "1972-03-19 02:00:00",
-        "1972-10-29 02:00:00",
+        "1972-10-29 03:00:00",
         "1973-03-18 02:00:00",
-        "1973-10-28 02:00:00",
+        "1973-10-28 03:00:00",
         "1974-03-17 02:00:00",
-        "1974-10-27 02:00:00",
+        "1974-10-27 03:00:00",
         "1975-03-16 02:00:00",
-        "1975-10-26 02:00:00",
+        "1975-10-26 03:00:00",
         "1976-03-21 02:00:00",
-        "1976-10-24 02:00:00",
+        "1976-10-24 03:00:00",
         "1977-03-20 02:00:00",
-        "1977-10-23 02:00:00",
+        "1977-10-23 03:00:00",
         "1978-03-19 02:00:00",
-        "1978-10-29 02:00:00",
+        "1978-10-29 03:00:00",
         "1979-03-18 02:00:00",
-        "1979-10-28 02:00:00",
+        "1979-10-28 03:00:00",
         "1980-03-16 02:00:00",
-        "1980-10-26 02:00:00",
+        "1980-10-26 03:00:00",
         "1981-03-29 02:00:00",
         "1981-10-25 02:00:00",
         "1982-03-28 02:00:00",
@@ -454,24 +456,26 @@ DST_CUTOFFS_DUBLIN = FastArray(
 
 DST_REVERSE_DUBLIN = FastArray(
     [
-        "1972-03-19 01:00:00",
-        "1972-10-29 01:00:00",
-        "1973-03-18 01:00:00",
-        "1973-10-28 01:00:00",
-        "1974-03-17 01:00:00",
-        "1974-10-27 01:00:00",
-        "1975-03-16 01:00:00",
-        "1975-10-26 01:00:00",
-        "1976-03-21 01:00:00",
-        "1976-10-24 01:00:00",
-        "1977-03-20 01:00:00",
-        "1977-10-23 01:00:00",
-        "1978-03-19 01:00:00",
-        "1978-10-29 01:00:00",
-        "1979-03-18 01:00:00",
-        "1979-10-28 01:00:00",
-        "1980-03-16 01:00:00",
-        "1980-10-26 01:00:00",
+        "1970-01-01 00:00:00",
+        "1971-10-31 02:00:00",
+        "1972-03-19 02:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-18 02:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-17 02:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-16 02:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-21 02:00:00",
+        "1976-10-24 02:00:00",
+        "1977-03-20 02:00:00",
+        "1977-10-23 02:00:00",
+        "1978-03-19 02:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-18 02:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-16 02:00:00",
+        "1980-10-26 02:00:00",
         "1981-03-29 01:00:00",
         "1981-10-25 01:00:00",
         "1982-03-28 01:00:00",
@@ -603,88 +607,79 @@ DUBLIN_OFFSET_NS = 0 * NANOS_PER_HOUR
 
 DST_CUTOFFS_Australia__Sydney = FastArray(
     [
-        # Prefix the array with one additional entry compared to timezones in the northern hemisphere.
-        # Code below in the TimeZone class assumes even-indexed entries represent start-of-DST transition times
-        # (local date/time within this timezone) and odd-numbered entries represent end-of-DST transition times.
-        # Timezones in the southern hemisphere start DST later in the year and end earlier in the year,
-        # so this one additional entry fixes the DST calculations below.
-        "1969-10-26 02:00:00",
-        "1970-04-05 03:00:00",
-        "1970-10-04 02:00:00",
-        "1971-04-04 03:00:00",
-        "1971-10-03 02:00:00",
-        "1972-04-02 03:00:00",
-        "1972-10-01 02:00:00",
-        "1973-04-01 03:00:00",
-        "1973-10-07 02:00:00",
-        "1974-04-07 03:00:00",
-        "1974-10-06 02:00:00",
-        "1975-04-06 03:00:00",
-        "1975-10-05 02:00:00",
-        "1976-04-04 03:00:00",
-        "1976-10-03 02:00:00",
-        "1977-04-03 03:00:00",
-        "1977-10-02 02:00:00",
-        "1978-04-02 03:00:00",
-        "1978-10-01 02:00:00",
-        "1979-04-01 03:00:00",
-        "1979-10-07 02:00:00",
-        "1980-04-06 03:00:00",
-        "1980-10-05 02:00:00",
-        "1981-04-05 03:00:00",
-        "1981-10-04 02:00:00",
+        "1971-10-31 02:00:00",
+        "1972-02-27 03:00:00",
+        "1972-10-29 02:00:00",
+        "1973-03-04 03:00:00",
+        "1973-10-28 02:00:00",
+        "1974-03-03 03:00:00",
+        "1974-10-27 02:00:00",
+        "1975-03-02 03:00:00",
+        "1975-10-26 02:00:00",
+        "1976-03-07 03:00:00",
+        "1976-10-31 02:00:00",
+        "1977-03-06 03:00:00",
+        "1977-10-30 02:00:00",
+        "1978-03-05 03:00:00",
+        "1978-10-29 02:00:00",
+        "1979-03-04 03:00:00",
+        "1979-10-28 02:00:00",
+        "1980-03-02 03:00:00",
+        "1980-10-26 02:00:00",
+        "1981-03-01 03:00:00",
+        "1981-10-25 02:00:00",
         "1982-04-04 03:00:00",
-        "1982-10-03 02:00:00",
-        "1983-04-03 03:00:00",
-        "1983-10-02 02:00:00",
-        "1984-04-01 03:00:00",
-        "1984-10-07 02:00:00",
-        "1985-04-07 03:00:00",
-        "1985-10-06 02:00:00",
-        "1986-04-06 03:00:00",
-        "1986-10-05 02:00:00",
-        "1987-04-05 03:00:00",
-        "1987-10-04 02:00:00",
-        "1988-04-03 03:00:00",
-        "1988-10-02 02:00:00",
-        "1989-04-02 03:00:00",
-        "1989-10-01 02:00:00",
-        "1990-04-01 03:00:00",
-        "1990-10-07 02:00:00",
-        "1991-04-07 03:00:00",
-        "1991-10-06 02:00:00",
-        "1992-04-05 03:00:00",
-        "1992-10-04 02:00:00",
-        "1993-04-04 03:00:00",
-        "1993-10-03 02:00:00",
-        "1994-04-03 03:00:00",
-        "1994-10-02 02:00:00",
-        "1995-04-02 03:00:00",
-        "1995-10-01 02:00:00",
-        "1996-04-07 03:00:00",
-        "1996-10-06 02:00:00",
-        "1997-04-06 03:00:00",
-        "1997-10-05 02:00:00",
-        "1998-04-05 03:00:00",
-        "1998-10-04 02:00:00",
-        "1999-04-04 03:00:00",
-        "1999-10-03 02:00:00",
-        "2000-04-02 03:00:00",
-        "2000-10-01 02:00:00",
-        "2001-04-01 03:00:00",
-        "2001-10-07 02:00:00",
-        "2002-04-07 03:00:00",
-        "2002-10-06 02:00:00",
-        "2003-04-06 03:00:00",
-        "2003-10-05 02:00:00",
-        "2004-04-04 03:00:00",
-        "2004-10-03 02:00:00",
-        "2005-04-03 03:00:00",
-        "2005-10-02 02:00:00",
+        "1982-10-31 02:00:00",
+        "1983-03-06 03:00:00",
+        "1983-10-30 02:00:00",
+        "1984-03-04 03:00:00",
+        "1984-10-28 02:00:00",
+        "1985-03-03 03:00:00",
+        "1985-10-27 02:00:00",
+        "1986-03-16 03:00:00",
+        "1986-10-19 02:00:00",
+        "1987-03-15 03:00:00",
+        "1987-10-25 02:00:00",
+        "1988-03-20 03:00:00",
+        "1988-10-30 02:00:00",
+        "1989-03-19 03:00:00",
+        "1989-10-29 02:00:00",
+        "1990-03-04 03:00:00",
+        "1990-10-28 02:00:00",
+        "1991-03-03 03:00:00",
+        "1991-10-27 02:00:00",
+        "1992-03-01 03:00:00",
+        "1992-10-25 02:00:00",
+        "1993-03-07 03:00:00",
+        "1993-10-31 02:00:00",
+        "1994-03-06 03:00:00",
+        "1994-10-30 02:00:00",
+        "1995-03-05 03:00:00",
+        "1995-10-29 02:00:00",
+        "1996-03-31 03:00:00",
+        "1996-10-27 02:00:00",
+        "1997-03-30 03:00:00",
+        "1997-10-26 02:00:00",
+        "1998-03-29 03:00:00",
+        "1998-10-25 02:00:00",
+        "1999-03-28 03:00:00",
+        "1999-10-31 02:00:00",
+        "2000-03-26 03:00:00",
+        "2000-08-27 02:00:00",
+        "2001-03-25 03:00:00",
+        "2001-10-28 02:00:00",
+        "2002-03-31 03:00:00",
+        "2002-10-27 02:00:00",
+        "2003-03-30 03:00:00",
+        "2003-10-26 02:00:00",
+        "2004-03-28 03:00:00",
+        "2004-10-31 02:00:00",
+        "2005-03-27 03:00:00",
+        "2005-10-30 02:00:00",
         "2006-04-02 03:00:00",
-        "2006-10-01 02:00:00",
-        "2007-04-01 03:00:00",
-        "2007-10-07 02:00:00",
+        "2006-10-29 02:00:00",
+        "2007-03-25 03:00:00",
+        "2007-10-28 02:00:00",
         "2008-04-06 03:00:00",
         "2008-10-05 02:00:00",
         "2009-04-05 03:00:00",
@@ -756,83 +751,79 @@ DST_CUTOFFS_Australia__Sydney = FastArray(
 
 DST_REVERSE_Australia__Sydney = FastArray(
     [
-        "1969-10-25 16:00:00",
-        "1970-04-04 16:00:00",
-        "1970-10-03 16:00:00",
-        "1971-04-03 16:00:00",
-        "1971-10-02 16:00:00",
-        "1972-04-01 16:00:00",
-        "1972-09-30 16:00:00",
-        "1973-03-31 16:00:00",
-        "1973-10-06 16:00:00",
-        "1974-04-06 16:00:00",
-        "1974-10-05 16:00:00",
-        "1975-04-05 16:00:00",
-        "1975-10-04 16:00:00",
-        "1976-04-03 16:00:00",
-        "1976-10-02 16:00:00",
-        "1977-04-02 16:00:00",
-        "1977-10-01 16:00:00",
-        "1978-04-01 16:00:00",
-        "1978-09-30 16:00:00",
-        "1979-03-31 16:00:00",
-        "1979-10-06 16:00:00",
-        "1980-04-05 16:00:00",
-        "1980-10-04 16:00:00",
-        "1981-04-04 16:00:00",
-        "1981-10-03 16:00:00",
+        "1971-10-30 16:00:00",
+        "1972-02-26 16:00:00",
+        "1972-10-28 16:00:00",
+        "1973-03-03 16:00:00",
+        "1973-10-27 16:00:00",
+        "1974-03-02 16:00:00",
+        "1974-10-26 16:00:00",
+        "1975-03-01 16:00:00",
+        "1975-10-25 16:00:00",
+        "1976-03-06 16:00:00",
+        "1976-10-30 16:00:00",
+        "1977-03-05 16:00:00",
+        "1977-10-29 16:00:00",
+        "1978-03-04 16:00:00",
+        "1978-10-28 16:00:00",
+        "1979-03-03 16:00:00",
+        "1979-10-27 16:00:00",
+        "1980-03-01 16:00:00",
+        "1980-10-25 16:00:00",
+        "1981-02-28 16:00:00",
+        "1981-10-24 16:00:00",
         "1982-04-03 16:00:00",
-        "1982-10-02 16:00:00",
-        "1983-04-02 16:00:00",
-        "1983-10-01 16:00:00",
-        "1984-03-31 16:00:00",
-        "1984-10-06 16:00:00",
-        "1985-04-06 16:00:00",
-        "1985-10-05 16:00:00",
-        "1986-04-05 16:00:00",
-        "1986-10-04 16:00:00",
-        "1987-04-04 16:00:00",
-        "1987-10-03 16:00:00",
-        "1988-04-02 16:00:00",
-        "1988-10-01 16:00:00",
-        "1989-04-01 16:00:00",
-        "1989-09-30 16:00:00",
-        "1990-03-31 16:00:00",
-        "1990-10-06 16:00:00",
-        "1991-04-06 16:00:00",
-        "1991-10-05 16:00:00",
-        "1992-04-04 16:00:00",
-        "1992-10-03 16:00:00",
-        "1993-04-03 16:00:00",
-        "1993-10-02 16:00:00",
-        "1994-04-02 16:00:00",
-        "1994-10-01 16:00:00",
-        "1995-04-01 16:00:00",
-        "1995-09-30 16:00:00",
-        "1996-04-06 16:00:00",
-        "1996-10-05 16:00:00",
-        "1997-04-05 16:00:00",
-        "1997-10-04 16:00:00",
-        "1998-04-04 16:00:00",
-        "1998-10-03 16:00:00",
-        "1999-04-03 16:00:00",
-        "1999-10-02 16:00:00",
-        "2000-04-01 16:00:00",
-        "2000-09-30 16:00:00",
-        "2001-03-31 16:00:00",
-        "2001-10-06 16:00:00",
-        "2002-04-06 16:00:00",
-        "2002-10-05 16:00:00",
-        "2003-04-05 16:00:00",
-        "2003-10-04 16:00:00",
-        "2004-04-03 16:00:00",
-        "2004-10-02 16:00:00",
-        "2005-04-02 16:00:00",
-        "2005-10-01 16:00:00",
+        "1982-10-30 16:00:00",
+        "1983-03-05 16:00:00",
+        "1983-10-29 16:00:00",
+        "1984-03-03 16:00:00",
+        "1984-10-27 16:00:00",
+        "1985-03-02 16:00:00",
+        "1985-10-26 16:00:00",
+        "1986-03-15 16:00:00",
+        "1986-10-18 16:00:00",
+        "1987-03-14 16:00:00",
+        "1987-10-24 16:00:00",
+        "1988-03-19 16:00:00",
+        "1988-10-29 16:00:00",
+        "1989-03-18 16:00:00",
+        "1989-10-28 16:00:00",
+        "1990-03-03 16:00:00",
+        "1990-10-27 16:00:00",
+        "1991-03-02 16:00:00",
+        "1991-10-26 16:00:00",
+        "1992-02-29 16:00:00",
+        "1992-10-24 16:00:00",
+        "1993-03-06 16:00:00",
+        "1993-10-30 16:00:00",
+        "1994-03-05 16:00:00",
+        "1994-10-29 16:00:00",
+        "1995-03-04 16:00:00",
+        "1995-10-28 16:00:00",
+        "1996-03-30 16:00:00",
+        "1996-10-26 16:00:00",
+        "1997-03-29 16:00:00",
+        "1997-10-25 16:00:00",
+        "1998-03-28 16:00:00",
+        "1998-10-24 16:00:00",
+        "1999-03-27 16:00:00",
+        "1999-10-30 16:00:00",
+        "2000-03-25 16:00:00",
+        "2000-08-26 16:00:00",
+        "2001-03-24 16:00:00",
+        "2001-10-27 16:00:00",
+        "2002-03-30 16:00:00",
+        "2002-10-26 16:00:00",
+        "2003-03-29 16:00:00",
+        "2003-10-25 16:00:00",
+        "2004-03-27 16:00:00",
+        "2004-10-30 16:00:00",
+        "2005-03-26 16:00:00",
+        "2005-10-29 16:00:00",
         "2006-04-01 16:00:00",
-        "2006-09-30 16:00:00",
-        "2007-03-31 16:00:00",
-        "2007-10-06 16:00:00",
+        "2006-10-28 16:00:00",
+        "2007-03-24 16:00:00",
+        "2007-10-27 16:00:00",
         "2008-04-05 16:00:00",
         "2008-10-04 16:00:00",
         "2009-04-04 16:00:00",
-- 
2.43.0


From c24c3f3299d63da4d632333da80ef93945ac403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 096/127] fix: daylight saving switches at the transition
 instant, not after it

---
 riptable/rt_timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_timezone.py b/riptable/rt_timezone.py
index fd9d505..f6725aa 100644
--- a/riptable/rt_timezone.py
+++ b/riptable/rt_timezone.py
@@ -1182,7 +1182,7 @@ class TimeZone:
         # is_dst = (FastArray(np.searchsorted(DST_CUTOFFS, arr)) & 1).astype(bool)
         # is_dst = (rc.BinsToCutsBSearch(arr, cutoffs, 0) & 1).astype(bool)
 
-        is_dst = (searchsorted(cutoffs, arr) & 1).astype(np.bool_)
+        is_dst = (searchsorted(cutoffs, arr, side="right") & 1).astype(np.bool_)
         return is_dst
 
     # ------------------------------------------------------------
-- 
2.43.0


From fe68838bc5b141581b90bcdcb196df4af50295ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 097/127] fix: time stamp fields of one-element arrays,
 broadcasts and scalars keep invalid values

---
 riptable/rt_datetime.py | 51 +++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 6d8a672..c6b5ef1 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -547,37 +547,32 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
     Called by time fraction properties and math operations.
     """
     if isinstance(arr1, np.ndarray):
-        if len(arr1) == 1:
-            # broadcast array of 1 path
-            if arr1[0] <= 0:
-                return TypeRegister.FastArray([INVALID_DICT[arr2.dtype.num]])
-            return arr2
-        else:
-            if arr1_inv_mask is None:
-                arr1_inv_mask = arr1.isnan()
-
-            if fillval is None:
-                # use the sentinel or nan for the return array type, e.g. year() returns int32
-                fillval = INVALID_DICT[arr2.dtype.num]
-            putmask(arr2, arr1_inv_mask, fillval)
-
-            # apply the invalid mask from an operation with another array
-            if arr2_inv_mask is not None:
-                # return invalid fill, fixes broadcasting if math operations
-                # was with a scalar or single item array
-                if np.isscalar(arr2_inv_mask):
-                    if arr2_inv_mask:
-                        arr2[:] = fillval
-                elif len(arr2_inv_mask) == 1:
-                    if arr2_inv_mask[0]:
-                        arr2[:] = fillval
-                else:
-                    putmask(arr2, arr2_inv_mask, fillval)
-            return arr2
+        if arr1_inv_mask is None:
+            arr1_inv_mask = arr1.isnan()
+
+        if fillval is None:
+            # use the sentinel or nan for the return array type, e.g. year() returns int32
+            fillval = INVALID_DICT[arr2.dtype.num]
+
+        # apply the invalid masks from this array and from an operation with another array
+        for inv_mask in (arr1_inv_mask, arr2_inv_mask):
+            if inv_mask is None:
+                continue
+            # return invalid fill, fixes broadcasting if math operations
+            # was with a scalar or single item array
+            if np.isscalar(inv_mask):
+                if inv_mask:
+                    arr2[:] = fillval
+            elif len(inv_mask) == 1:
+                if inv_mask[0]:
+                    arr2[:] = fillval
+            else:
+                putmask(arr2, inv_mask, fillval)
+        return arr2
     else:
         # scalar path
         if arr1 <= 0:
-            return INVALID_DICT[arr2.dtype.num]
+            return arr2.dtype.type(INVALID_DICT[arr2.dtype.num])
         return arr2
 
 
-- 
2.43.0


From a623bc1f8df4723c99ec5abea3468c23da242557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 098/127] fix: strftime truncates instead of rounding to the
 next second

---
 riptable/rt_datetime.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index c6b5ef1..2f6bc61 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4151,27 +4151,22 @@ class DateTimeCommon:
         >>> dtn[0].strftime('%c')
         'Fri Jan  1 09:31:15 2021'
         """
-        in_seconds = self / NANOS_PER_SECOND
         to_tz = self._timezone._to_tz
         if to_tz in ["GMT", "UTC"]:
-            if isinstance(in_seconds, np.ndarray):
-                return np.asarray(
-                    [dt.fromtimestamp(timestamp, timezone.utc).strftime(format) for timestamp in in_seconds],
-                    dtype=dtype,
-                )
-            else:
-                return dt.strftime(dt.fromtimestamp(in_seconds, timezone.utc), format)
-
+            localzone = timezone.utc
         else:
             # Choose timezone from to_tz
             localzone = tz.gettz(self._timezone._timezone_str)
 
-            if isinstance(in_seconds, np.ndarray):
-                return np.asarray(
-                    [dt.fromtimestamp(timestamp, localzone).strftime(format) for timestamp in in_seconds], dtype=dtype
-                )
-            else:
-                return dt.strftime(dt.fromtimestamp(in_seconds, localzone), format)
+        def format_nanos(nanos):
+            # integer arithmetic: seconds held in a float would be rounded
+            seconds, fraction = divmod(int(nanos), NANOS_PER_SECOND)
+            result = dt.fromtimestamp(seconds, localzone).replace(microsecond=fraction // NANOS_PER_MICROSECOND)
+            return result.strftime(format)
+
+        if isinstance(self, np.ndarray):
+            return np.asarray([format_nanos(nanos) for nanos in self._fa], dtype=dtype)
+        return format_nanos(self)
 
 
 # ========================================================
@@ -6525,12 +6520,15 @@ class TimeSpanBase:
         # get negative mask since strftime does not handle negative
         isnegative = self._fa < 0
 
+        def format_nanos(nanos):
+            # integer arithmetic: seconds held in a float would be rounded
+            seconds, fraction = divmod(int(nanos), NANOS_PER_SECOND)
+            result = dt.fromtimestamp(seconds, timezone.utc).replace(microsecond=fraction // NANOS_PER_MICROSECOND)
+            return result.strftime(format)
+
         if isinstance(self, np.ndarray):
             result = np.asarray(
-                [
-                    dt.fromtimestamp(timestamp, timezone.utc).strftime(format)
-                    for timestamp in self._fa.abs() / 1_000_000_000.0
-                ],
+                [format_nanos(nanos) for nanos in self._fa.abs()],
                 dtype=dtype,
             )
             if isnegative.sum() > 0:
@@ -6542,7 +6540,7 @@ class TimeSpanBase:
                     negcol[isnegative] = "-"
                 result = negcol + result
         else:
-            result = dt.strftime(dt.fromtimestamp(abs(self) / 1_000_000_000.0, timezone.utc), format)
+            result = format_nanos(abs(self))
             if isnegative:
                 # check dtype 'S'
                 if dtype == "S":
-- 
2.43.0


From 18ad6310765118c9500bc8999067adcfae7aa3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:45 +0000
Subject: [PATCH 099/127] fix: hhmmss of negative and invalid spans

---
 riptable/rt_datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 2f6bc61..431a443 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -6595,9 +6595,10 @@ class TimeSpanBase:
     def hhmmss(self):
         """Timespan as int64 array in format HHMMSS."""
         SEC_PER_MIN = 60
-        hour, remainder = divmod(self.astype(np.int64) // NANOS_PER_SECOND, 3600)
+        # split the magnitude, the sign belongs to the whole number; nan becomes an invalid integer
+        hour, remainder = divmod(abs(self._fa) // NANOS_PER_SECOND, 3600)
         minutes, seconds = divmod(remainder, SEC_PER_MIN)
-        return (10_000 * hour + 100 * minutes + seconds).astype(np.int64)
+        return (np.sign(self._fa) * (10_000 * hour + 100 * minutes + seconds)).astype(np.int64)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From 1df5faf620c73e2e23a2accf621e0fe2df473763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:46 +0000
Subject: [PATCH 100/127] fix: set_timezone on a view does not change its
 source

---
 riptable/rt_datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 431a443..f3297e9 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -4701,6 +4701,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         >>> dtn
         DateTimeNano(['20210825 13:34:00.000000000'], to_tz='Europe/Dublin')
         """
+        # views share the timezone object with their source
+        self._timezone = self._timezone.copy()
         self._timezone._set_timezone(tz)
 
     # ------------------------------------------------------------
-- 
2.43.0


From 40c706bb944d3fdb3b0782f523f29c826718e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:46 +0000
Subject: [PATCH 101/127] fix: Date from DateTimeNano is the calendar day in
 the displayed timezone

---
 riptable/rt_datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index f3297e9..cb4df2b 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1300,7 +1300,8 @@ class Date(DateBase, TimeStampBase):
                 elif isinstance(arr, TypeRegister.DateTimeNano):
                     # there is a bug here -- do not think a timezone fixup is nec
                     # arr = arr._timezone.fix_dst(arr._fa, arr._timezone._dst_cutoffs)
-                    arr = arr._fa // NANOS_PER_DAY
+                    # the calendar day in the displayed timezone
+                    arr = arr.days_since_epoch
 
                 # flip strings to days from 1970
                 if arr.dtype.char in ("U", "S"):
-- 
2.43.0


From a7c13e4adcb9dc314818b1686f9dd010bc623038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:46 +0000
Subject: [PATCH 102/127] fix: Date.seconds_since_epoch does not overflow after
 2038

---
 riptable/rt_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index cb4df2b..51393de 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -2090,7 +2090,7 @@ class Date(DateBase, TimeStampBase):
         Many existing python datetime routines expect seconds since epoch.
         This call is to eliminate "magic numbers" like 3600 from code.
         """
-        return _apply_inv_mask(self, self._fa * SECONDS_PER_DAY)
+        return _apply_inv_mask(self, self._fa.astype(np.int64) * SECONDS_PER_DAY)
 
     # ------------------------------------------------------------
     @classmethod
-- 
2.43.0


From ad12c5a1b082c0ad930de2156f686c367143c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:46 +0000
Subject: [PATCH 103/127] fix: day_of_month, date and minute use the local time
 of the zone

---
 riptable/rt_datetime.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 51393de..35808c0 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3276,12 +3276,8 @@ class DateTimeCommon:
 
 
         """
-        if self._timezone._dst_reverse is not None:
-            arr = self._timezone.fix_dst(self._fa)
-            arr = arr - (arr % NANOS_PER_DAY)
-        else:
-            arr = self._fa
-            arr = arr - (arr % NANOS_PER_DAY)
+        arr = self._timezone.fix_dst(self._fa)
+        arr = arr - (arr % NANOS_PER_DAY)
         # from_tz needs to match to_tz (similar to from_matlab_days, except can't force 'GMT' because of DST fixup)
         # return DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz='UTC')
         result = DateTimeNano(arr, from_tz=self._timezone._to_tz, to_tz=self._timezone._to_tz)
@@ -3457,8 +3453,11 @@ class DateTimeCommon:
         int32 array
 
         """
-        arr = self._fa
-        year = self._year(arr, fix_dst=True)
+        if not isinstance(self, np.ndarray):
+            return self._scalar_to_array().day_of_month[0]
+
+        arr = self._timezone.fix_dst(self._fa)
+        year = self._year(arr, fix_dst=False)
 
         # subtract the nanos from start of year so all times are in MM-DD HH:MM:SS, etc.
         startyear = arr - self._year_splits[year - 1970]
@@ -3730,10 +3729,10 @@ class DateTimeCommon:
     def _time_fraction(self, modulo, divisor, span=False):
         """
         Internal routine for minute, second, millisecond, microsecond, nanosecond (+span) properties.
-        None of these need to account for timezone.
+        Time zone offsets are not always a whole number of hours.
         """
         inv_mask = self.isnan()
-        arr = self._fa % modulo
+        arr = self._timezone.fix_dst(self._fa) % modulo
         if span:
             if isinstance(self, DateTimeNano):
                 result = TypeRegister.TimeSpan(arr)
-- 
2.43.0


From 106913fe5de6b9c6a47d5b3cbe5c7bdbe46061a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:46 +0000
Subject: [PATCH 104/127] fix: calendar fields of DateTimeNano scalars and
 invalid stamps

---
 riptable/rt_datetime.py | 54 ++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 35808c0..45c82e5 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -3123,7 +3123,7 @@ class DateTimeCommon:
 
         """
         arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_DAY
+        return _apply_inv_mask(self, arr // NANOS_PER_DAY)
 
     # ------------------------------------------------------------
     @property
@@ -3142,7 +3142,7 @@ class DateTimeCommon:
         int64 array
         """
         arr = self._timezone.fix_dst(self)
-        return arr // NANOS_PER_SECOND
+        return _apply_inv_mask(self, arr // NANOS_PER_SECOND)
 
     # ------------------------------------------------------------
     def nanos_since_midnight(self):
@@ -3307,6 +3307,8 @@ class DateTimeCommon:
         this routine is very similar to day_of_month - can probably internal routines to avoid repeating code
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_to_array().yyyymmdd[0]
         arr = self._fa
         arr = self._timezone.fix_dst(arr)
         year = self._year(arr, fix_dst=False)
@@ -3335,7 +3337,7 @@ class DateTimeCommon:
         final += monthnum.astype(np.int32) * 100
         final += (monthtime // NANOS_PER_DAY) + 1
 
-        return final
+        return _apply_inv_mask(self, final)
 
     # ------------------------------------------------------------
     @property
@@ -3391,6 +3393,8 @@ class DateTimeCommon:
         int32 array
 
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_to_array().month()[0]
         return _apply_inv_mask(self, self._month(fix_dst=True))
 
     # ------------------------------------------------------------
@@ -3404,6 +3408,8 @@ class DateTimeCommon:
         >>> d.monthyear()
         FastArray([ 'Feb2000','Dec2018'])
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_to_array().monthyear()[0]
         month = self.month()
         yearstr = self.year().astype("S")
         return MONTH_STR_ARRAY[month - 1] + yearstr
@@ -3432,7 +3438,7 @@ class DateTimeCommon:
             result = result // NANOS_PER_DAY
         result += 1
 
-        return result
+        return _apply_inv_mask(self, result)
 
     # ------------------------------------------------------------
     @property
@@ -3478,7 +3484,7 @@ class DateTimeCommon:
             monthtime = monthtime // NANOS_PER_DAY
         monthtime += 1
 
-        return monthtime
+        return _apply_inv_mask(self, monthtime)
 
     # ------------------------------------------------------------
     @property
@@ -3508,7 +3514,7 @@ class DateTimeCommon:
             np.mod(arr, 7, out=arr)
         else:
             arr = arr % 7
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     @property
@@ -3523,7 +3529,7 @@ class DateTimeCommon:
         arr -= adjust
         arr -= EPOCH_DAY_OF_WEEK
 
-        result = Date(arr)
+        result = Date(_apply_inv_mask(self, arr))
         if not isinstance(arr, np.ndarray):
             return result[0]
         return result
@@ -3581,15 +3587,25 @@ class DateTimeCommon:
         -------
         int32 array
         """
+        if not isinstance(self, np.ndarray):
+            return self._scalar_to_array().tz_offset[0]
         return self._timezone._tz_offset(self._fa)
 
     # -----------------------------------------------------
+    def _scalar_to_array(self):
+        """
+        One element array with the value and timezone of a scalar.
+        """
+        return DateTimeNano(np.int64(self), from_tz="GMT", to_tz=self._timezone._to_tz)
+
+    # ------------------------------------------------------------
     def putmask(self, arr1, filter, arr2):
         """
         scalar or array putmask
         """
         if isinstance(arr1, np.ndarray):
-            return putmask(arr1, filter, arr2)
+            putmask(arr1, filter, arr2)
+            return arr1
         else:
             if filter:
                 return arr2
@@ -3616,8 +3632,7 @@ class DateTimeCommon:
         """
         inv_mask = self.isnan()
         isweekday = self.day_of_week < 5
-        self.putmask(isweekday, inv_mask, False)
-        return isweekday
+        return self.putmask(isweekday, inv_mask, False)
 
     # ------------------------------------------------------------
     @property
@@ -3639,8 +3654,7 @@ class DateTimeCommon:
         """
         inv_mask = self.isnan()
         isweekend = self.day_of_week > 4
-        self.putmask(isweekend, inv_mask, False)
-        return isweekend
+        return self.putmask(isweekend, inv_mask, False)
 
     # ------------------------------------------------------------
     @property
@@ -3667,8 +3681,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         arr = arr % NANOS_PER_DAY
         arr = arr / NANOS_PER_DAY
-        self.putmask(arr, inv_mask, np.nan)
-        return arr
+        return self.putmask(arr, inv_mask, np.nan)
 
     # ------------------------------------------------------------
     @property
@@ -3719,11 +3732,13 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         arr = arr % NANOS_PER_DAY
         if span:
-            result = TypeRegister.TimeSpan(arr)
+            if isinstance(self, DateTimeNano):
+                result = TypeRegister.TimeSpan(arr)
+            else:
+                result = TypeRegister.TimeSpanScalar(arr)
         else:
             result = arr / NANOS_PER_HOUR
-        self.putmask(result, inv_mask, np.nan)
-        return result
+        return self.putmask(result, inv_mask, np.nan)
 
     # ------------------------------------------------------------
     def _time_fraction(self, modulo, divisor, span=False):
@@ -3740,8 +3755,7 @@ class DateTimeCommon:
                 result = TypeRegister.TimeSpanScalar(arr)
         else:
             result = arr / divisor
-        self.putmask(result, inv_mask, np.nan)
-        return result
+        return self.putmask(result, inv_mask, np.nan)
 
     # ------------------------------------------------------------
     @property
@@ -3976,7 +3990,7 @@ class DateTimeCommon:
         arr = self._timezone.fix_dst(self._fa)
         year = self._year(arr, fix_dst=False)
         arr = arr - self._year_splits[year - 1970]
-        return arr
+        return _apply_inv_mask(self, arr)
 
     # ------------------------------------------------------------
     def time_since_start_of_year(self):
-- 
2.43.0


From 85e3129894384aca5d83036c8d7eecf132d5f0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:26 +0000
Subject: [PATCH 105/127] fix: diff() of dates, stamps and spans keeps units,
 class and invalids

---
 riptable/rt_datetime.py | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 45c82e5..1b79ce2 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1389,8 +1389,8 @@ class Date(DateBase, TimeStampBase):
         -------
         DateSpan
         """
-        result = self._fa.diff(periods=periods)
-        return DateSpan(result)
+        # subtraction recognizes invalid dates
+        return self - self.shift(periods)
 
     # ------------------------------------------------------------
     @classmethod
@@ -2917,6 +2917,16 @@ class DateSpan(DateBase):
         # pass the subclass to the parent class routine
         return hstack_any(dates, cls, DateSpan)
 
+    # ------------------------------------------------------------
+    def diff(self, periods=1):
+        """
+        Returns
+        -------
+        DateSpan
+        """
+        # subtraction recognizes invalid spans
+        return self - self.shift(periods)
+
     # ------------------------------------------------------------
     def _check_mathops_nano(self, funcname, value, other_inv_mask, return_type, caller):
         """
@@ -5736,7 +5746,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         >>> dtn.diff(periods=6)
         TimeSpan(['Inv', 'Inv', 'Inv', 'Inv', 'Inv', 'Inv'])
         """
-        return TimeSpan(self._fa.diff(periods=periods).astype(np.float64))
+        # subtraction recognizes invalid times
+        return self - self.shift(periods)
 
     # -------------------------------------------------------------
     def __radd__(self, other):
@@ -7253,6 +7264,28 @@ class TimeSpan(TimeSpanBase, DateTimeBase):
         """
         return hstack_any(tspans, cls, TimeSpan)
 
+    # ------------------------------------------------------------
+    def _inplace_op(self, result, op_name):
+        if not isinstance(result, TimeSpan):
+            raise TypeError(f"{op_name} returns {type(result)}. Cannot perform inplace.")
+        self._fa[:] = result._fa
+        return self
+
+    def __iadd__(self, value):
+        return self._inplace_op(self + value, "__add__")
+
+    def __isub__(self, value):
+        return self._inplace_op(self - value, "__sub__")
+
+    # ------------------------------------------------------------
+    def diff(self, periods=1):
+        """
+        Returns
+        -------
+        TimeSpan
+        """
+        return TimeSpan(self._fa.diff(periods=periods))
+
     # ------------------------------------------------------------
     def fill_invalid(self, shape=None, dtype=None, inplace=True):
         arr = self._fill_invalid_internal(shape=shape, dtype=self.dtype, inplace=inplace)
-- 
2.43.0


From 25d0155246a3968fdbc917626c2fc4d7548869ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:27 +0000
Subject: [PATCH 106/127] fix: comparisons with an invalid date or span on
 either side are False

---
 riptable/rt_datetime.py | 103 ++++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 42 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 1b79ce2..363fe0c 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -576,6 +576,16 @@ def _apply_inv_mask(arr1, arr2, fillval=None, arr1_inv_mask=None, arr2_inv_mask=
         return arr2
 
 
+def _scalar_to_array(value):
+    """Date and time scalars follow the rules of their array class, as one element arrays."""
+    if isinstance(value, DateTimeNanoScalar):
+        return value._scalar_to_array()
+    for scalar_class, array_class in ((DateScalar, Date), (DateSpanScalar, DateSpan), (TimeSpanScalar, TimeSpan)):
+        if isinstance(value, scalar_class):
+            return array_class([value._np])
+    return value
+
+
 # ========================================================
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
@@ -816,16 +826,19 @@ class TimeStampBase:
         return smonth.astype(np.int32, copy=False).view(FastArray)
 
     # ------------------------------------------------------------
-    def _preserve_invalid_comparison(self, caller, other, funcname):
+    def _preserve_invalid_comparison(self, caller, other, funcname, other_inv_mask=None):
         """Date and DateTimeNano have multiple values for nan (0 and integer sentinel).
         Both of their compare checks need to preserve nans in the result the same way.
         """
         func = getattr(caller, funcname)
         result = func(other)
+        inv_mask = self.isnan()
+        if other_inv_mask is not None:
+            inv_mask = inv_mask | other_inv_mask
         if funcname == "__ne__":
-            result += self.isnan()
+            result += inv_mask
         else:
-            result *= self.isnotnan()
+            result *= ~inv_mask
         return result
 
 
@@ -1026,6 +1039,8 @@ class DateBase(FastArray):
         if funcname in self.forbidden_mathops:
             raise TypeError(f"Cannot perform {funcname} on {self.__class__.__name__} object.")
 
+        value = _scalar_to_array(value)
+        operand = value
         inv_mask = self.isnan()
         other_inv_mask = None
         return_type = None
@@ -1048,7 +1063,7 @@ class DateBase(FastArray):
             return other_inv_mask
 
         # apply invalid mask(s) and wrap result in final return type
-        result = self._build_mathops_result(value, result, inv_mask, other_inv_mask, return_type)
+        result = self._build_mathops_result(operand, result, inv_mask, other_inv_mask, return_type)
         return result
 
     # ------------------------------------------------------------
@@ -2237,7 +2252,9 @@ class Date(DateBase, TimeStampBase):
         Helps Date interact with DateTimeNano, TimeSpan.
         """
 
+        other = _scalar_to_array(other)
         caller = self._fa
+        other_inv_mask = other.isnan() if isinstance(other, (Date, DateTimeNano)) else None
 
         if isinstance(other, (DateSpan, TimeSpan, DateSpanScalar, TimeSpanScalar)):
             raise TypeError(f"Cannot perform {funcname} comparison operation between {type(self)} and {type(other)}.")
@@ -2261,7 +2278,7 @@ class Date(DateBase, TimeStampBase):
         # let everything else fall through for FastArray to catch
 
         # restore invalids
-        return self._preserve_invalid_comparison(caller, other, funcname)
+        return self._preserve_invalid_comparison(caller, other, funcname, other_inv_mask)
 
     # -------------------COMPARISONS------------------------------
     # ------------------------------------------------------------
@@ -3026,13 +3043,16 @@ class DateSpan(DateBase):
         elif isinstance(other, DateSpan):
             other = other._fa
 
-        # Categorical will fall through to constructor too
-        elif isinstance(other, np.ndarray):
-            other = Date(other)
-
         # let everything else fall through for FastArray to catch
         func = getattr(caller, funcname)
-        return func(other)
+        result = func(other)
+
+        # comparisons with an invalid span are always False (True for not equal)
+        inv_mask = self.isnan()
+        if isinstance(other, np.ndarray):
+            inv_mask = inv_mask | isnan(other)
+        result[inv_mask] = funcname == "__ne__"
+        return result
 
     # -------------------COMPARISONS------------------------------
     # ------------------------------------------------------------
@@ -5587,7 +5607,8 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
         # let everything else fall through to fast array
 
         # restore invalids
-        return self._preserve_invalid_comparison(caller, other, funcname)
+        other_inv_mask = other.isnan() if isinstance(other, (DateTimeNano, DateTimeNanoScalar)) else None
+        return self._preserve_invalid_comparison(caller, other, funcname, other_inv_mask)
 
     # -------------------COMPARISONS------------------------------
     # ------------------------------------------------------------
@@ -6792,21 +6813,21 @@ class TimeSpanBase:
         other_inv_mask = None
 
         # TimeSpan add
-        if not isinstance(value, np.ndarray):
-            value = FastArray(value).astype(np.float64)
-        else:
-            # DateTimeNano / Date will fix up this operation
-            if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
-                return value.__add__(self)
+        # DateTimeNano / Date will fix up this operation
+        if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
+            return _scalar_to_array(value).__add__(self)
 
-            elif isinstance(value, (DateSpan, DateSpanScalar)):
-                other_inv_mask = isnan(value)
-                value = value._fa * NANOS_PER_DAY
+        elif isinstance(value, (DateSpan, DateSpanScalar)):
+            value = _scalar_to_array(value)._fa.astype(np.float64) * NANOS_PER_DAY
+            other_inv_mask = isnan(value)
 
-            else:
-                other_inv_mask = isnan(value)
-                value = value.view(FastArray)
-                value = value.astype(np.float64, copy=False)
+        elif not isinstance(value, np.ndarray):
+            value = FastArray(value).astype(np.float64)
+
+        else:
+            other_inv_mask = isnan(value)
+            value = value.view(FastArray)
+            value = value.astype(np.float64, copy=False)
 
         return self._fix_binary_ops(value, "__add__", other_inv_mask=other_inv_mask)
 
@@ -6822,22 +6843,19 @@ class TimeSpanBase:
 
     # -------------------------------------------------------------
     def __rsub__(self, value):
-        if not isinstance(value, np.ndarray):
-            value = FastArray(value).astype(np.float64)
+        if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
+            return _scalar_to_array(value).__sub__(self)
 
-        else:
-            if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
-                return value.__sub__(self)
+        elif isinstance(value, (DateSpan, DateSpanScalar)):
+            value = _scalar_to_array(value)._fa.astype(np.float64) * NANOS_PER_DAY
 
-            elif isinstance(value, (DateSpan, DateSpanScalar)):
-                other_inv_mask = isnan(value)
-                value = value._fa * NANOS_PER_DAY
+        elif not isinstance(value, np.ndarray):
+            value = FastArray(value).astype(np.float64)
 
-            # interpret everything else as nanosecond timespan values
-            else:
-                other_inv_mask = isnan(value)
-                value = value.view(FastArray)
-                value = value.astype(np.float64, copy=False)
+        # interpret everything else as nanosecond timespan values
+        else:
+            value = value.view(FastArray)
+            value = value.astype(np.float64, copy=False)
 
         return self._fix_binary_ops(value, "__rsub__")
 
@@ -6899,8 +6917,8 @@ class TimeSpanBase:
             else:
                 # possible nan fill
                 if len(other_inv_mask) == 1:
-                    if isnan(other_inv_mask)[0]:
-                        result = TimeSpan(full(len(self), np.nan, dtype=np.float64))
+                    if other_inv_mask[0]:
+                        result[:] = np.nan
                 else:
                     result[other_inv_mask] = np.nan
             result = TimeSpan(result)
@@ -7084,11 +7102,12 @@ class TimeSpanBase:
         if isinstance(other, (str, bytes)):
             other = TimeSpan(other)[0]
 
-        if isinstance(other, (DateTimeNano, Date)):
+        if isinstance(other, (DateTimeNano, Date, DateTimeNanoScalar, DateScalar)):
             raise TypeError(f"Cannot compare TimeSpan with {type(other)}")
         # upcast DateSpan to nanoseconds
-        elif isinstance(other, DateSpan):
-            other = (other._fa * NANOS_PER_DAY).astype(np.float64)
+        elif isinstance(other, (DateSpan, DateSpanScalar)):
+            nanos = _scalar_to_array(other)._fa.astype(np.float64) * NANOS_PER_DAY
+            other = nanos if isinstance(other, DateSpan) else nanos[0]
 
         # let everything else fall through to fast array
         result = func(other)
-- 
2.43.0


From f051e3be7d2f65097632c3f1b279439fdcf16acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:27 +0000
Subject: [PATCH 107/127] fix: date and time scalars follow the arithmetic
 rules of their arrays

---
 riptable/rt_datetime.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 363fe0c..14f2bf3 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -1082,12 +1082,8 @@ class DateBase(FastArray):
 
         if not isinstance(result, return_type):
             if return_type == DateTimeNano:
-                try:
-                    # base on original to_tz
-                    # use a try, because this may be hit by TimeSpan operand (no timezone)
-                    to_tz = value._timezone._to_tz
-                except:
-                    to_tz = "GMT"
+                # base on original to_tz, this may be hit by TimeSpan operand (no timezone)
+                to_tz = value._timezone._to_tz if isinstance(value, DateTimeNano) else "GMT"
                 result = DateTimeNano(result, from_tz="GMT", to_tz=to_tz)
 
             else:
@@ -2332,6 +2328,7 @@ class Date(DateBase, TimeStampBase):
 
         All other operands will be treated as DateSpan and return Date.
         """
+        value = _scalar_to_array(value)
         if isinstance(value, Date):
             func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
             # need routine for int32 - int32 => int32 (operands have 0 as invalid, result has sentinel as invalid)
@@ -3030,6 +3027,7 @@ class DateSpan(DateBase):
         Helps Date interact with DateTimeNano, TimeSpan.
         """
 
+        other = _scalar_to_array(other)
         caller = self._fa
 
         if isinstance(other, (Date, DateTimeNano, TypeRegister.Categorical)):
@@ -4108,7 +4106,7 @@ class DateTimeCommon:
         """
         input1 = self
         if not isinstance(self, np.ndarray):
-            input1 = DateTimeNano(self)
+            input1 = self._scalar_to_array()
 
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
         if call_super:
@@ -5781,6 +5779,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
     # -------------------------------------------------------------
     def __add__(self, other, inplace=False):
+        other = _scalar_to_array(other)
         call_super = False
         other_inv_mask = None
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
@@ -5843,6 +5842,7 @@ class DateTimeNano(DateTimeBase, TimeStampBase, DateTimeCommon):
 
     # -------------------------------------------------------------
     def __sub__(self, other, inplace=False):
+        other = _scalar_to_array(other)
         call_super = False
         other_inv_mask = None
         func = TypeRegister.MathLedger._BASICMATH_TWO_INPUTS
@@ -6838,7 +6838,10 @@ class TimeSpanBase:
     # -------------------------------------------------------------
     def __sub__(self, value):
         if isinstance(value, (DateTimeNano, DateTimeNanoScalar, Date, DateScalar)):
-            return value.__rsub__(self)
+            return _scalar_to_array(value).__rsub__(self)
+        elif isinstance(value, (DateSpan, DateSpanScalar)):
+            nanos = _scalar_to_array(value)._fa.astype(np.float64) * NANOS_PER_DAY
+            value = nanos if isinstance(value, DateSpan) else nanos[0]
         return self._fix_binary_ops(value, "__sub__")
 
     # -------------------------------------------------------------
-- 
2.43.0


From 33edd40e3ffa7c1911667ebad93ac04600842bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 108/127] fix: subtracting strided dates and timestamps

---
 riptable/rt_datetime.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_datetime.py b/riptable/rt_datetime.py
index 14f2bf3..0c0621f 100644
--- a/riptable/rt_datetime.py
+++ b/riptable/rt_datetime.py
@@ -586,6 +586,11 @@ def _scalar_to_array(value):
     return value
 
 
+def _contiguous(arr):
+    """The date subtraction kernel does not accept strided arrays."""
+    return arr if arr.flags.c_contiguous else arr.copy()
+
+
 # ========================================================
 class DateTimeBase(FastArray):
     """Base class for DateTimeNano and TimeSpan.
@@ -2335,7 +2340,7 @@ class Date(DateBase, TimeStampBase):
             # right now, using the double return, gets recasted in the constructor
             op = MATH_OPERATION.SUBDATETIMES
 
-            functup = (self, value)
+            functup = (_contiguous(self), _contiguous(value))
             result = func(functup, op, 0)
             return DateSpan(result)
 
@@ -4127,7 +4132,7 @@ class DateTimeCommon:
             if inplace:
                 functup = (input1, other, input1)
             else:
-                functup = (input1, other)
+                functup = (_contiguous(input1), _contiguous(other))
 
             result = func(functup, op, 0)
             if result is None:
-- 
2.43.0


From 91287d7ca7485d3dfd0ff556ca4a9993471b5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 109/127] fix: string functions: strided arrays, optional and
 missing regex groups, open slices of category text, long stop strings

---
 riptable/rt_str.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_str.py b/riptable/rt_str.py
index fa46d3d..e01d959 100644
--- a/riptable/rt_str.py
+++ b/riptable/rt_str.py
@@ -141,6 +141,10 @@ class FAString(FastArray):
             arr = arr.astype("U")
             intype = arr.dtype.char
 
+        if arr.ndim > 0 and not arr.flags.c_contiguous:
+            # the characters can only be viewed in one piece
+            arr = np.ascontiguousarray(arr)
+
         itemsize = np.int64(arr.itemsize)
 
         if intype == "S":
@@ -1122,7 +1126,8 @@ class FAString(FastArray):
         ngroups = compiled.groups
         if ngroups == 0:
             # convenience where we treat the entire pattern as a capture group
-            return self.extract(f"({regex.decode()})", **kwargs)
+            pattern = regex.decode() if isinstance(regex, bytes) else regex
+            return self.extract(f"({pattern})", **kwargs)
 
         # expand defaults to False if we have one capture group and do not specify names
         if expand is None:
@@ -1148,7 +1153,9 @@ class FAString(FastArray):
             if result is not None:
                 result = result.groups()
                 for s, arr in zip(result, out_arrs):
-                    arr[i] = s
+                    # an optional group that took no part in the match is missing
+                    if s is not None:
+                        arr[i] = s
 
         if expand:
             out = TypeRegister.Dataset(dict(zip(names, out_arrs)))
@@ -1253,7 +1260,9 @@ class FAString(FastArray):
         int_stop = self.index(stop)
         int_stop[int_stop == -1] = self._itemsize  # return full string if stop not found
         if inclusive:
-            int_stop += 1
+            if not isinstance(stop, FAString):
+                stop = self._validate_input(stop)
+            int_stop += len(stop)
         return self.substr(int_stop)
 
     def _nb_char(src, position, itemsize, strlen, out):
@@ -1431,7 +1440,8 @@ class _SubStrAccessor:
             if y.step is not None:
                 raise NotImplementedError("slicing with step in substr is not supported")
             if y.stop is None:
-                stop = self.fastring.strlen
+                # each element is taken to its own end
+                stop = np.iinfo(np.int64).max
             else:
                 stop = y.stop
             return self.fastring._substr(y.start, stop)
-- 
2.43.0


From 63cadc381a96d1ff4d8becd70d6a48da911b1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:22 +0000
Subject: [PATCH 110/127] fix: Accum2 margins cover exactly the rows of the
 table, in display order

---
 riptable/rt_accum2.py | 83 +++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c0b2183..c63328c 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -506,12 +506,9 @@ class Accum2(GroupByOps, FastArray):
             return accum_tuple[0]
 
         else:
+            # the bins of a grouping are always 1 based
             ikey = cat.grouping.ikey
 
-            # if zero base, we need 1 base for these calculations
-            if cat.grouping.base_index == 0:
-                ikey = ikey + 1
-
             # Optimization: combine_filter was previously called
             if filter is not None:
                 # N.B. We are going to change ikey, make a copy instead of changing the input. The input
@@ -656,6 +653,23 @@ class Accum2(GroupByOps, FastArray):
         # return a new filter
         return newfilter
 
+    # ---------------------------------------------------------------
+    @classmethod
+    def _visible_rows(cls, cat):
+        """Boolean mask of the rows which are not filtered out by `cat`."""
+        return cat.grouping.ikey > 0
+
+    # ---------------------------------------------------------------
+    @classmethod
+    def _sort_totals(cls, cat, totals, showfilter):
+        """Margins follow the display order of the keys."""
+        if cat.gb_keychain.sort_gb_data:
+            sort_idx = cat.gb_keychain.isortrows
+            if showfilter:
+                sort_idx = np.append([0], sort_idx + 1)
+            totals = totals[sort_idx]
+        return totals
+
     # ---------------------------------------------------------------
     @classmethod
     def _calc_multipass(
@@ -724,6 +738,13 @@ class Accum2(GroupByOps, FastArray):
             print("filtercols", newfilterX)
             print("filter    ", newfilter)
 
+        if not showfilter:
+            # rows with a filtered key are not in the table, nor in its margins
+            visible = cls._visible_rows(cat_rows) & cls._visible_rows(cat_cols)
+            newfilterX = visible if newfilterX is None else newfilterX & visible
+            newfilterY = visible if newfilterY is None else newfilterY & visible
+            newfilter = visible if newfilter is None else newfilter & visible
+
         # set to False so that totalsX has invalid where the badcols are
         # set to False so that totalsY has invalid where the badrows are
         # badcalc =True
@@ -739,26 +760,16 @@ class Accum2(GroupByOps, FastArray):
             totalsY = cls._accum1_pass(cat_rows, origarr, funcNum, showfilter=showfilter, filter=newfilter, **kwargs)
 
         # calculate total of totals
-        if func is not None:
+        if callable(funcNum):
             # we can have common filters, row filters, and col filters
-
-            try:
-                if newfilter is not None:
-                    totalOfTotals = func(origarr[newfilter])
-                else:
-                    totalOfTotals = func(origarr)
-            except:
-                if "func_param" not in kwargs:
-                    raise ValueError(f"Function {name} requires an extra parameter.")
-                func_param = kwargs["func_param"]
-                if newfilter is not None:
-                    totalOfTotals = func(origarr[newfilter], func_param)
-                else:
-                    totalOfTotals = func(origarr, func_param)
+            totalOfTotals = func(origarr if newfilter is None else origarr[newfilter])
         else:
-            # todo, get invalid
-            totalOfTotals = 0
+            # every row is in the same group
+            total_cat = Categorical(full(len(origarr), 1, dtype=np.int8), ["Total"])
+            totalOfTotals = cls._accum1_pass(total_cat, origarr, funcNum, filter=newfilter, **kwargs)[0]
 
+        totalsX = cls._sort_totals(cat_cols, totalsX, showfilter)
+        totalsY = cls._sort_totals(cat_rows, totalsY, showfilter)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
     # ---------------------------------------------------------------
@@ -900,18 +911,8 @@ class Accum2(GroupByOps, FastArray):
             # calc totals with both rows and cols removed
             totalOfTotals = func(im)
 
-        if cat_rows.gb_keychain.sort_gb_data:
-            sort_idx = cat_rows.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsY = totalsY[sort_idx]
-
-        if cat_cols.gb_keychain.sort_gb_data:
-            sort_idx = cat_cols.gb_keychain.isortrows
-            if showfilter:
-                sort_idx = np.append([0], sort_idx + 1)
-            totalsX = totalsX[sort_idx]
-        # push calculations to dataset (newds)
+        totalsX = cls._sort_totals(cat_cols, totalsX, showfilter)
+        totalsY = cls._sort_totals(cat_rows, totalsY, showfilter)
         cls._add_totals(cat_rows, newds, name, totalsX, totalsY, totalOfTotals)
 
     # ---------------------------------------------------------------
@@ -1145,6 +1146,12 @@ class Accum2(GroupByOps, FastArray):
         """
 
         args, kwargs, origdict, tups = self._pop_gb_data("apply_reduce", userfunc, *args, **kwargs, dataset=dataset)
+        if self._myfilter is not None:
+            if kwargs.get("filter", None) is not None:
+                kwargs["filter"] = self._myfilter & kwargs["filter"]
+            else:
+                kwargs["filter"] = self._myfilter
+
         # temp pop showfilter
         realshowfilter = kwargs.get("showfilter", False)
         kwargs["showfilter"] = True
@@ -1285,12 +1292,12 @@ class Accum2(GroupByOps, FastArray):
 # for sum we only need to make one pass (calc_onepass)
 # for mean we need to make multiple passes
 apply_dict_total = {
-    GB_FUNCTIONS.GB_SUM: ("Total", np.sum, Accum2._calc_onepass),
+    GB_FUNCTIONS.GB_SUM: ("Total", np.sum, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANSUM: ("Nansum", np.nansum, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_onepass),
-    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_onepass),
+    GB_FUNCTIONS.GB_MIN: ("Min", np.min, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMIN: ("Nanmin", np.nanmin, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_MAX: ("Max", np.max, Accum2._calc_multipass),
+    GB_FUNCTIONS.GB_NANMAX: ("Nanmax", np.nanmax, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_MEAN: ("Mean", np.mean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_NANMEAN: ("Nanmean", np.nanmean, Accum2._calc_multipass),
     GB_FUNCTIONS.GB_VAR: ("Var", np.var, Accum2._calc_multipass),
-- 
2.43.0


From a3f8a1a10034402ff18b934fde1066380edaa113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:11 +0000
Subject: [PATCH 111/127] fix: accum_ratio renamed categories of the caller's
 categorical

---
 riptable/rt_accumtable.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_accumtable.py b/riptable/rt_accumtable.py
index 8dedb1f..cfd49b3 100644
--- a/riptable/rt_accumtable.py
+++ b/riptable/rt_accumtable.py
@@ -996,10 +996,12 @@ def accum_ratio(
     if cat2 is None:
         cat2 = Categorical(full(val1.shape[0], 1, dtype=np.int8), ["NotGrouped"])
 
-    # Handle name collisions
-    for key in ["Numer", "Denom", "Ratio"]:
-        if key in cat2.categories():
-            cat2.category_replace(key, key + "_")
+    # Handle name collisions (on a copy, the caller's categorical must not change)
+    collisions = [key for key in ["Numer", "Denom", "Ratio"] if key in cat2.categories()]
+    if collisions:
+        cat2 = cat2.copy()
+    for key in collisions:
+        cat2.category_replace(key, key + "_")
 
     # Compute accum
     accum = AccumTable(cat1, cat2)
-- 
2.43.0


From 335eb5b21489eda875532a0b533f676ba6bf4660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:11 +0000
Subject: [PATCH 112/127] fix: cut/quantile on integer, strided and
 out-of-dtype bins

---
 riptable/rt_bin.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/riptable/rt_bin.py b/riptable/rt_bin.py
index 637e0d2..a7c12ce 100644
--- a/riptable/rt_bin.py
+++ b/riptable/rt_bin.py
@@ -13,6 +13,13 @@ from .rt_enum import CLIPPED_LONG_NAME, NumpyCharTypes, TypeRegister
 from .rt_numpy import lexsort, unique, where
 
 
+def _make_contiguous(x):
+    # a one element view is flagged contiguous whatever its stride, the kernels look at the stride
+    if not x.flags.contiguous or (x.ndim == 1 and x.strides[0] != x.itemsize):
+        x = x.copy().view(TypeRegister.FastArray)
+    return x
+
+
 # ------------------------------------------------------------------------------------
 def quantile(x, q, interpolation_method: str = "fraction"):
     """
@@ -53,8 +60,7 @@ def quantile(x, q, interpolation_method: str = "fraction"):
         x = TypeRegister.FastArray(x)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _make_contiguous(x)
 
     # indirect sort and pass this back...
     # print("lexsort", x, x.shape)
@@ -115,9 +121,9 @@ def quantile(x, q, interpolation_method: str = "fraction"):
             if interpolation_method == "fraction":
                 score = _interpolate(_val(int(idx)), _val(int(idx) + 1), idx % 1)
             elif interpolation_method == "lower":
-                score = _val(np.floor(idx))
+                score = _val(int(np.floor(idx)))
             elif interpolation_method == "higher":
-                score = _val(np.ceil(idx))
+                score = _val(int(np.ceil(idx)))
             else:
                 raise ValueError("interpolation_method can only be 'fraction', 'lower' or 'higher'")
 
@@ -225,8 +231,7 @@ def qcut(x, q, labels=True, retbins=False, precision=3, duplicates="raise", filt
         x = where(filter, x, np.nan)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _make_contiguous(x)
 
     dtype = x.dtype
 
@@ -366,9 +371,11 @@ def _bins_to_cuts_new(
         ids = rc.BinsToCutsSorted(x, bins, lsort, counts, mode)
         # print("bins sorted",ids, x, bins)
     else:
-        # check for int compaing to inf, if so force upcast
-        if bins[0] == -np.inf or bins[-1] == np.inf:
-            x = x.astype(np.float64)
+        # integers are compared with the edges cast to their own type: upcast if an edge (inf, 2.5, out of range) does not fit
+        if x.dtype.char in NumpyCharTypes.AllInteger:
+            limits = np.iinfo(x.dtype)
+            if not ((bins == np.floor(bins)) & (bins >= limits.min) & (bins <= limits.max)).all():
+                x = x.view(TypeRegister.FastArray).astype(np.float64)
         ids = rc.BinsToCutsBSearch(x, bins, mode)
         # print("bins bsearch",ids, x, bins)
 
@@ -627,8 +634,7 @@ def cut(
         x = where(filter, x, np.nan)
 
     # make sure contiguous
-    if not x.flags.contiguous:
-        x = np.ascontiguousarray(x).view(TypeRegister.FastArray)
+    x = _make_contiguous(x)
 
     if not np.iterable(bins):
         if np.isscalar(bins) and bins < 1:
-- 
2.43.0


From f88eee772ec68d8c3950debf6333704702220db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:47 +0000
Subject: [PATCH 113/127] fix: Multiset.flatten failed without label columns

---
 riptable/rt_multiset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/riptable/rt_multiset.py b/riptable/rt_multiset.py
index 388ad98..301c266 100644
--- a/riptable/rt_multiset.py
+++ b/riptable/rt_multiset.py
@@ -672,8 +672,11 @@ class Multiset(Struct):
             val_col_names = [n for n in elem.keys() if n not in label_col_names]
             if horizontal:
                 if initial:
-                    dsr = elem[label_col_names] if label_col_names else TypeRegister.Dataset()
-                dsr = TypeRegister.Dataset.concat_columns([dsr, elem[val_col_names]], do_copy=False)
+                    # an empty Dataset has no rows and cannot be joined with the values
+                    pieces = [elem[label_col_names]] if label_col_names else []
+                else:
+                    pieces = [dsr]
+                dsr = TypeRegister.Dataset.concat_columns(pieces + [elem[val_col_names]], do_copy=False)
                 for col_name in val_col_names:
                     dsr.col_rename(col_name, delimiter.join([name, col_name]))
             else:
-- 
2.43.0


From 1edc3ea49033563b7d336bb8337494da25aae5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:47 +0000
Subject: [PATCH 114/127] fix: Struct.equals raised for a nested structure
 against a scalar

---
 riptable/rt_struct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 9dadb81..039351b 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3899,8 +3899,10 @@ class Struct:
                         return False
                 else:
                     if not isinstance(v2, np.ndarray):
-                        if isinstance(v2, Struct):
+                        if isinstance(v1, Struct) and isinstance(v2, Struct):
                             comptest = v1.equals(v2)
+                        elif isinstance(v1, Struct) or isinstance(v2, Struct):
+                            comptest = False
                         else:
                             comptest = v1 == v2
                         if not comptest:
-- 
2.43.0


From 6dcbff1378d2d7c04f60b4fbedcc3f7f6e250a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:47 +0000
Subject: [PATCH 115/127] fix: col_pop failed for masks and positions

---
 riptable/rt_struct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 039351b..65fd923 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -3697,7 +3697,8 @@ class Struct:
         if missing:
             raise IndexError("Unknown column(s) {} do(es) not exist and cannot be popped.".format(sorted(missing)))
 
-        if isinstance(col_idx, list):
+        if is_list_like(col_idx):
+            col_idx = list(col_idx)
             newds = self[col_idx]
         else:
             newds = getattr(self, col_idx)
-- 
2.43.0


From fd304971cc24318ad3ed001d03627aa26dd07afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:47 +0000
Subject: [PATCH 116/127] fix: PDataset.pcat kept old labels after set_pnames

---
 riptable/rt_pdataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_pdataset.py b/riptable/rt_pdataset.py
index 66fbb25..aad958c 100644
--- a/riptable/rt_pdataset.py
+++ b/riptable/rt_pdataset.py
@@ -437,6 +437,8 @@ class PDataset(Dataset):
 
                 if len(newpnames) == len(self._pnames):
                     self._pnames = newpnames
+                    # the cached partition categorical is labelled by name
+                    self._pcat = None
                 else:
                     raise ValueError(f"The new pnames must be unique names: {pnames}")
 
-- 
2.43.0


From 5af80f856f942b068577e7b728c6d5c4ad957452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:05 +0000
Subject: [PATCH 117/127] fix: transposed display keeps the width of its row
 header

---
 riptable/rt_display.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_display.py b/riptable/rt_display.py
index 2616d79..7d1564d 100644
--- a/riptable/rt_display.py
+++ b/riptable/rt_display.py
@@ -1526,6 +1526,8 @@ class DisplayTable(object):
         t_widths = []
         for i in range(t_max):
             max_width = len(max([c[i].string for c in t_columns], key=len))
+            # the header of a transposed column is its row number
+            max_width = max(max_width, len(str(i)))
             t_widths.append(max_width)
 
         # fit maximum number of columns in the console window
-- 
2.43.0


From 18d28f7063569cca654721d071a1e932a8abfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:05 +0000
Subject: [PATCH 118/127] fix: summary of a structure nests any number of items

---
 riptable/rt_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_struct.py b/riptable/rt_struct.py
index 65fd923..d65bca6 100644
--- a/riptable/rt_struct.py
+++ b/riptable/rt_struct.py
@@ -5085,7 +5085,7 @@ class Struct:
                 size = data._ncols
                 data = list(data.keys())
                 if size >= self._summary_len:
-                    data = data[: self._summary_len]
+                    items = data[: self._summary_len]
                 else:
                     left = np.array(data, dtype=str)
                     right = np.full(self._summary_len - size, "")
-- 
2.43.0


From dac77af6c4776024b531b37fc202e0715b6549e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:30 +0000
Subject: [PATCH 119/127] fix: saving and loading Accum2

---
 riptable/rt_accum2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index c63328c..6aa41ca 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -1239,16 +1239,17 @@ class Accum2(GroupByOps, FastArray):
 
         cols = []
 
-        for cat in [self._cat_cols, self._cat_rows]:
+        for cat in [self._cat_rows, self._cat_cols]:
             cols.append(cat._fa)
-            cat_meta, cat_cols = cat._build_sds_meta_data(TypeId.Categorical.name)
+            cat_meta, cat_cols, _ = cat._build_sds_meta_data(TypeId.Categorical.name)
             for c in cat_cols:
                 cols.append(c)
             meta["cat_meta"].append(cat_meta.string)
 
         meta["ncols"] = len(cols)
+        tups = [((name + "!col_" + str(i)).encode(), 0) for i in range(len(cols))]
 
-        return meta, cols
+        return meta, cols, tups
 
     # -------------------------------------------------------
     @classmethod
-- 
2.43.0


From 6cde6fe193f3be9dca2895264025b7dc00eaaa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:30 +0000
Subject: [PATCH 120/127] fix: GroupBy.as_categorical and get_group pair bins
 with their own keys

---
 riptable/rt_groupby.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/riptable/rt_groupby.py b/riptable/rt_groupby.py
index ae01641..4ce6ed8 100644
--- a/riptable/rt_groupby.py
+++ b/riptable/rt_groupby.py
@@ -423,10 +423,15 @@ class GroupBy(GroupByOps):
         Categorical operation results will be sorted or unsorted depending on if 'gb' or 'gbu' called this.
         """
 
-        idx = self.grouping.ikey
-        gbkeys = self.gbkeys
-
-        return TypeRegister.Categorical(idx, _from_categorical=gbkeys, sort_gb=self._sort_display)
+        # the bins follow the order of the unique keys; gbkeys are in display order, which may be another one
+        grouping = TypeRegister.Grouping(
+            self.grouping.ikey,
+            dict(self.grouping.uniquedict),
+            sort_display=self._sort_display,
+            categorical=True,
+            _trusted=True,
+        )
+        return TypeRegister.Categorical(grouping)
 
     # ---------------------------------------------------------------
     def _grouping_data_as_dict(self, ds):
-- 
2.43.0


From 2a4bb4e8e3159cc86ed968b562cdc0104b295c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 121/127] fix: Accum2 rows name their own keys when the display
 is sorted

---
 riptable/rt_accum2.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/riptable/rt_accum2.py b/riptable/rt_accum2.py
index 6aa41ca..2cc8404 100755
--- a/riptable/rt_accum2.py
+++ b/riptable/rt_accum2.py
@@ -260,22 +260,17 @@ class Accum2(GroupByOps, FastArray):
         xidx = matrix_index // (self._cat_rows.unique_count + 1)
         yidx = matrix_index % (self._cat_rows.unique_count + 1)
 
-        if xidx == 0:
-            xcat = INVALID_SHORT_NAME
-        else:
-            xidx -= 1
-            xcat = self._cat_cols.gb_keychain.get_bin(xidx)
-
-        if yidx == 0:
-            ycat = INVALID_SHORT_NAME
-        else:
-            yidx -= 1
-            ycat = self._cat_rows.gb_keychain.get_bin(yidx)
-
-        if isinstance(xcat, bytes):
-            xcat = bytes.decode(xcat)
-        if isinstance(ycat, bytes):
-            ycat = bytes.decode(ycat)
+        def get_key(cat, idx):
+            # the bins follow the order of the unique keys, which the (sorted) display keys may not
+            if idx == 0:
+                return INVALID_SHORT_NAME
+            key = cat.key_from_bin(idx - 1)
+            if isinstance(key, tuple):
+                return tuple(bytes.decode(k) if isinstance(k, bytes) else k for k in key)
+            return bytes.decode(key) if isinstance(key, bytes) else key
+
+        xcat = get_key(self._cat_cols, xidx)
+        ycat = get_key(self._cat_rows, yidx)
         result = (xcat, ycat)
         return result
 
-- 
2.43.0


From 74a1485fb27fa4f0558e706664a59dcd5b381385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:20 +0000
Subject: [PATCH 122/127] fix: pivot refuses column values that would overwrite
 its label

---
 riptable/rt_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index be70665..a7c6f01 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -8118,6 +8118,9 @@ class Dataset(Struct):
                         # multikey name, insert underscore
                         c = c + "_" + colnames[j][i]
 
+                if c in newds:
+                    raise ValueError(f"Cannot pivot, the column name {c!r} would occur more than once.")
+
                 # slice up the one long array
                 newds[c] = arr_long[start : start + row_len - 1]
                 start = start + row_len
-- 
2.43.0


From 42547235edba5b15ff884e29c817d78fa107dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:27 +0000
Subject: [PATCH 123/127] fix: drop_duplicates(inplace=True) returns its own
 table when nothing repeats

---
 riptable/rt_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index a7c6f01..cc31ada 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3763,7 +3763,7 @@ class Dataset(Struct):
                 self._col_sortlist = None
                 self._sort_ascending = True
                 self.col_replace_all(deduplicated, check_exists=False)
-                return self
+            return self
 
         return deduplicated
 
-- 
2.43.0


From 31ae2c7e3fef1eab6f1d29856954add04576ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:27 +0000
Subject: [PATCH 124/127] fix: from_arrow uses the fill values it is given

---
 riptable/rt_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/riptable/rt_dataset.py b/riptable/rt_dataset.py
index cc31ada..92fc4aa 100644
--- a/riptable/rt_dataset.py
+++ b/riptable/rt_dataset.py
@@ -3302,6 +3302,8 @@ class Dataset(Struct):
         ds_cols = {}
         for col_name, col in zip(tbl.column_names, tbl.columns):
             if isinstance(col, (pa.Array, pa.ChunkedArray)):
+                if fill_value is not None and col_name in fill_value:
+                    col = col.fill_null(fill_value[col_name])
                 rt_arr = FastArray.from_arrow(
                     col, zero_copy_only=zero_copy_only, writable=writable, auto_widen=auto_widen
                 )
-- 
2.43.0


From 1b3e7c176b742b0cd231e03bb39c88fa5c396cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:27 +0000
Subject: [PATCH 125/127] fix: a single partition file is named by its whole
 number

---
 riptable/rt_pdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_pdataset.py b/riptable/rt_pdataset.py
index aad958c..fa646d4 100644
--- a/riptable/rt_pdataset.py
+++ b/riptable/rt_pdataset.py
@@ -226,7 +226,7 @@ class PDataset(Dataset):
 
                 if start != -1:
                     if stop == -1:
-                        stop = start + 1
+                        stop = len(filename)
 
                     # extract just the number
                     filename = filename[start:stop]
-- 
2.43.0


From a6649632c47e71d945ade899247edf28d2044006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:27 +0000
Subject: [PATCH 126/127] fix: describe labels a percentile by its own number

---
 riptable/rt_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/riptable/rt_utils.py b/riptable/rt_utils.py
index f54fa7f..210c908 100644
--- a/riptable/rt_utils.py
+++ b/riptable/rt_utils.py
@@ -864,7 +864,7 @@ def describe_helper(arr: Optional[np.ndarray], q: Optional[List[float]] = None)
     preamble = "Count Valid Nans Mean Std Min "
     body = ""
     for percent in q:
-        body += "P" + str(int(percent * 100)) + " "
+        body += "P" + str(int(round(percent * 100, 6))) + " "
     postamble = "Max MeanM"
 
     # Do I want to allow for optionally adding more pctls?
-- 
2.43.0


From c7d53b01b2edb16c8916f05e5bf6449ec0fcd46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:27 +0000
Subject: [PATCH 127/127] fix: reductions accept a dtype object

---
 riptable/rt_fastarray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/riptable/rt_fastarray.py b/riptable/rt_fastarray.py
index 8d12d2f..a671141 100644
--- a/riptable/rt_fastarray.py
+++ b/riptable/rt_fastarray.py
@@ -2193,7 +2193,7 @@ class FastArray(np.ndarray):
         dtype = kwargs.get("dtype", None)
         if dtype is not None:
             # user forced dtype return value
-            return dtype(result)
+            return np.dtype(dtype).type(result)
 
         # preserve type for min/max/nanmin/nanmax
         if reduceFunc in [
@@ -3176,7 +3176,7 @@ class FastArray(np.ndarray):
             return np.NaN
 
         if dtype is not None:
-            return dtype(myFunc(self, filter))
+            return np.dtype(dtype).type(myFunc(self, filter))
 
         return myFunc(self, filter)
 
@@ -4602,7 +4602,7 @@ class FastArray(np.ndarray):
                 dtype = kwargs.get("dtype", None)
                 if dtype is not None:
                     # user forced dtype return value
-                    return dtype(result)
+                    return np.dtype(dtype).type(result)
 
                 # preserve type for min/max/nanmin/nanmax
                 if reduceFunc in [
-- 
2.43.0

