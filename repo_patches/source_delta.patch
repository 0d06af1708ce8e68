From 380e0c79a0db9dbbba3947d5a5600a4a1255477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 01/78] fix: array slices ignored the strides of the
 integer/boolean array used as index

NumpyArray::asslice handed a strided buffer to code that assumes unit stride:
boolean masks read past the end of (or skipped) the data and jagged integer
slices used the wrong elements.
---
 src/libawkward/array/NumpyArray.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..c615bc1 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -3010,13 +3010,17 @@ namespace awkward {
                     "same slice item") + FILENAME(__LINE__));
     }
     if (dtype_ == util::dtype::int64) {
-        int64_t* raw = reinterpret_cast<int64_t*>(ptr_.get());
-        std::shared_ptr<int64_t> ptr(ptr_, raw);
+        NumpyArray contiguous_self = contiguous();
+        std::shared_ptr<void> contiguous_ptr = contiguous_self.ptr();
+        int64_t* raw = reinterpret_cast<int64_t*>(contiguous_ptr.get());
+        std::shared_ptr<int64_t> ptr(contiguous_ptr, raw);
         std::vector<int64_t> shape({ (int64_t)shape_[0] });
-        std::vector<int64_t> strides({ (int64_t)strides_[0] /
-                                       (int64_t)itemsize_ });
+        std::vector<int64_t> strides({ 1 });
         return std::make_shared<SliceArray64>(
-          Index64(ptr, (int64_t)byteoffset_ / (int64_t)itemsize_, length(), ptr_lib_),
+          Index64(ptr,
+                  (int64_t)contiguous_self.byteoffset() / (int64_t)itemsize_,
+                  length(),
+                  ptr_lib_),
           shape,
           strides,
           false);
@@ -3097,22 +3101,23 @@ namespace awkward {
     }
 
     else if (dtype_ == util::dtype::boolean) {
+      NumpyArray contiguous_self = contiguous();
       int64_t numtrue;
       struct Error err1 = kernel::NumpyArray_getitem_boolean_numtrue(
         kernel::lib::cpu,   // DERIVE
         &numtrue,
-        reinterpret_cast<int8_t*>(data()),
+        reinterpret_cast<int8_t*>(contiguous_self.data()),
         (int64_t)shape_[0],
-        (int64_t)strides_[0]);
+        1);
       util::handle_error(err1, classname(), identities_.get());
 
       Index64 index(numtrue);
       struct Error err2 = kernel::NumpyArray_getitem_boolean_nonzero_64(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-        reinterpret_cast<int8_t*>(data()),
+        reinterpret_cast<int8_t*>(contiguous_self.data()),
         (int64_t)shape_[0],
-        (int64_t)strides_[0]);
+        1);
       util::handle_error(err2, classname(), identities_.get());
 
       std::vector<int64_t> shape({ numtrue });
-- 
2.43.0


From 6c1d9d9fab9fdbcdd9bf7e2c60ff5d03672326e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:02 +0000
Subject: [PATCH 02/78] fix: several array indexes through missing values or
 unions picked wrong elements

When a slice has two or more arrays, the second is applied through the
'advanced' index, one entry per element. Option and union nodes drop elements
before descending but passed the advanced index on unchanged.
---
 src/libawkward/array/ByteMaskedArray.cpp | 15 ++++++++++++++-
 src/libawkward/array/IndexedArray.cpp    | 16 +++++++++++++++-
 src/libawkward/array/UnionArray.cpp      | 16 +++++++++++++++-
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 2624678..bdb6e1e 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -721,7 +721,20 @@ namespace awkward {
 
       ContentPtr next = content_.get()->carry(nextcarry, true);
 
-      ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+      // keep the advanced index in step with the elements that are kept
+      Index64 nextadvanced =
+        advanced.is_empty_advanced() ? advanced : Index64(nextcarry.length());
+      if (!advanced.is_empty_advanced()) {
+        for (int64_t i = 0;  i < outindex.length();  i++) {
+          if (outindex.getitem_at_nowrap(i) >= 0) {
+            nextadvanced.setitem_at_nowrap(
+              (int64_t)outindex.getitem_at_nowrap(i),
+              advanced.getitem_at_nowrap(i));
+          }
+        }
+      }
+
+      ContentPtr out = next.get()->getitem_next(head, tail, nextadvanced);
       IndexedOptionArray64 out2(identities_, parameters_, outindex, out);
       return out2.simplify_optiontype();
     }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index b8594a9..5421987 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1390,7 +1390,21 @@ namespace awkward {
         IndexOf<T> outindex = pair.second;
 
         ContentPtr next = content_.get()->carry(nextcarry, true);
-        ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+
+        // keep the advanced index in step with the elements that are kept
+        Index64 nextadvanced =
+          advanced.is_empty_advanced() ? advanced : Index64(nextcarry.length());
+        if (!advanced.is_empty_advanced()) {
+          for (int64_t i = 0;  i < outindex.length();  i++) {
+            if (outindex.getitem_at_nowrap(i) >= 0) {
+              nextadvanced.setitem_at_nowrap(
+                (int64_t)outindex.getitem_at_nowrap(i),
+                advanced.getitem_at_nowrap(i));
+            }
+          }
+        }
+
+        ContentPtr out = next.get()->getitem_next(head, tail, nextadvanced);
         IndexedArrayOf<T, ISOPTION> out2(identities_,
                                          parameters_,
                                          outindex,
diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 4f64688..59fab9a 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -1240,8 +1240,22 @@ namespace awkward {
       ContentPtrVec outcontents;
       for (int64_t i = 0;  i < numcontents();  i++) {
         ContentPtr projection = project(i);
+
+        // keep the advanced index in step with the elements that are kept
+        Index64 nextadvanced =
+          advanced.is_empty_advanced() ? advanced : Index64(projection.get()->length());
+        if (!advanced.is_empty_advanced()) {
+          int64_t k = 0;
+          for (int64_t j = 0;  j < tags_.length();  j++) {
+            if ((int64_t)tags_.getitem_at_nowrap(j) == i) {
+              nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(j));
+              k++;
+            }
+          }
+        }
+
         outcontents.push_back(
-          projection.get()->getitem_next(head, tail, advanced));
+          projection.get()->getitem_next(head, tail, nextadvanced));
       }
       IndexOf<I> outindex = regular_index(tags_);
       UnionArrayOf<T, I> out(identities_,
-- 
2.43.0


From ec808b128da0d34c0241ebfd30011b9d099ad722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:12 +0000
Subject: [PATCH 03/78] fix: an empty array index after the first dimension
 lost the outer dimension

a[:, []] returned [] rather than one empty list per list of a (and an invalid
array under missing values), because the zero-size RegularArray was not told
its length.
---
 include/awkward/Content.h                |  6 ++++--
 src/libawkward/Content.cpp               | 22 +++++++---------------
 src/libawkward/array/ListArray.cpp       |  3 ++-
 src/libawkward/array/ListOffsetArray.cpp |  3 ++-
 src/libawkward/array/RegularArray.cpp    |  3 ++-
 5 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/include/awkward/Content.h b/include/awkward/Content.h
index 0786514..be05dd3 100644
--- a/include/awkward/Content.h
+++ b/include/awkward/Content.h
@@ -1395,10 +1395,12 @@ namespace awkward {
     /// RegularArray nodes to satisfy a given `shape`.
     ///
     /// The `shape` is intended to match a
-    /// {@link SliceArrayOf#shape SliceArray::shape}.
+    /// {@link SliceArrayOf#shape SliceArray::shape} and `outerlength` is the
+    /// number of lists the array was applied to (the output's length).
     const ContentPtr
       getitem_next_array_wrap(const ContentPtr& outcontent,
-                              const std::vector<int64_t>& shape) const;
+                              const std::vector<int64_t>& shape,
+                              int64_t outerlength) const;
 
     /// @brief Internal function to convert #parameters into a string fragment
     /// for #tostring.
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..c7134f7 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1870,21 +1870,13 @@ namespace awkward {
 
   const ContentPtr
   Content::getitem_next_array_wrap(const ContentPtr& outcontent,
-                                   const std::vector<int64_t>& shape) const {
-    int64_t length = 0;
-    if (shape.size() >= 2) {
-      length = (int64_t)shape[shape.size() - 2];
-    }
-    ContentPtr out =
-      std::make_shared<RegularArray>(Identities::none(),
-                                     util::Parameters(),
-                                     outcontent,
-                                     (int64_t)shape[shape.size() - 1],
-                                     length);
-    for (int64_t i = (int64_t)shape.size() - 2;  i >= 0;  i--) {
-      int64_t length = 0;
-      if (i > 0) {
-        length = (int64_t)shape[(size_t)(i - 1)];
+                                   const std::vector<int64_t>& shape,
+                                   int64_t outerlength) const {
+    ContentPtr out = outcontent;
+    for (int64_t i = (int64_t)shape.size() - 1;  i >= 0;  i--) {
+      int64_t length = outerlength;
+      for (int64_t j = 0;  j < i;  j++) {
+        length *= (int64_t)shape[(size_t)j];
       }
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 76ad0fd..24d52c2 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1737,7 +1737,8 @@ namespace awkward {
           nextcontent.get()->getitem_next(nexthead,
                                           nexttail,
                                           nextadvanced),
-          array.shape());
+          array.shape(),
+          lenstarts);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..cf84921 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2228,7 +2228,8 @@ namespace awkward {
                  nextcontent.get()->getitem_next(nexthead,
                                                  nexttail,
                                                  nextadvanced),
-                 array.shape());
+                 array.shape(),
+                 lenstarts);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 79080b0..aaa2fdc 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1485,7 +1485,8 @@ namespace awkward {
                  nextcontent.get()->getitem_next(nexthead,
                                                  nexttail,
                                                  nextadvanced),
-                 array.shape());
+                 array.shape(),
+                 len);
       }
       else {
         return nextcontent.get()->getitem_next(nexthead,
-- 
2.43.0


From f1ff6e809aad71a79dc88261fc636040289dd407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:17 +0000
Subject: [PATCH 04/78] fix: slicing a non-contiguous multidimensional
 NumpyArray read outside its buffer

The carry-based getitem_next assumes a contiguous array; nested below an
UnmaskedArray (or any node whose carry is a no-op) it was given strided ones.
---
 src/libawkward/array/NumpyArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index c615bc1..bf8c915 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1433,6 +1433,9 @@ namespace awkward {
   NumpyArray::getitem_next(const SliceItemPtr& head,
                            const Slice& tail,
                            const Index64& advanced) const {
+    if (!iscontiguous()) {
+      return contiguous().getitem_next(head, tail, advanced);
+    }
     Index64 carry(shape_[0]);
     struct Error err = kernel::carry_arange<int64_t>(
       kernel::lib::cpu,   // DERIVE
-- 
2.43.0


From 6bd4ea45a7cdb15b1087f6ddb8e8cea820ae16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:17 +0000
Subject: [PATCH 05/78] fix: slicing records by two or more dimensions applied
 them all to the first

a[:, 0:2, 0:1] on an array of records sliced the same list dimension of each
field twice instead of one dimension after the other, and field data beyond the
record length could make a slice raise.
---
 src/libawkward/array/RecordArray.cpp | 37 +++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 571f0d4..1e3fed9 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1680,23 +1680,42 @@ namespace awkward {
       return Content::getitem_next(*missing, tail, advanced);
     }
     else {
-      SliceItemPtr nexthead = tail.head();
-      Slice nexttail = tail.tail();
-      Slice emptytail;
-      emptytail.become_sealed();
+      // dimensions before the first field name (if any) apply to all contents
+      std::vector<SliceItemPtr> items = tail.items();
+      size_t numdims = 0;
+      while (numdims < items.size()  &&
+             !dynamic_cast<SliceField*>(items[numdims].get())  &&
+             !dynamic_cast<SliceFields*>(items[numdims].get())) {
+        numdims++;
+      }
+      std::vector<SliceItemPtr> rest(items.begin() + (int64_t)numdims, items.end());
+      if (Slice(rest, true).not_fields().length() != 0) {
+        // more dimensions follow: they belong to the selected field
+        std::vector<SliceItemPtr> nextitems(items);
+        nextitems.erase(nextitems.begin() + (int64_t)numdims);
+        nextitems.insert(nextitems.begin(), head);
+        return getitem_next(rest[0], Slice(nextitems, true), advanced);
+      }
+      Slice dims(std::vector<SliceItemPtr>(items.begin(),
+                                           items.begin() + (int64_t)numdims), true);
 
       ContentPtrVec contents;
       for (auto content : contents_) {
-        contents.push_back(content.get()->getitem_next(head,
-                                                       emptytail,
-                                                       advanced));
+        ContentPtr trimmed = content.get()->getitem_range_nowrap(0, length());
+        contents.push_back(trimmed.get()->getitem_next(head, dims, advanced));
+      }
+      bool preserves_type = head.get()->preserves_type(advanced);
+      for (auto item : dims.items()) {
+        preserves_type = preserves_type  &&
+                         item.get()->preserves_type(advanced);
       }
       util::Parameters parameters;
-      if (head.get()->preserves_type(advanced)) {
+      if (preserves_type) {
         parameters = parameters_;
       }
       RecordArray out(Identities::none(), parameters, contents, recordlookup_);
-      return out.getitem_next(nexthead, nexttail, advanced);
+      Slice nexttail(rest, true);
+      return out.getitem_next(nexttail.head(), nexttail.tail(), advanced);
     }
   }
 
-- 
2.43.0


From ccaf14c92b7f52a64e0cfe0d1a34d5c7c10cb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:27 +0000
Subject: [PATCH 06/78] fix: reducing over an axis above an empty list moved
 its result to the end

The output ranges were derived from 'gaps', which only knows groups without
any list, not groups whose lists are all empty.
---
 kernel-specification.yml                      | 24 ++++++------------
 ...rray_reduce_nonlocal_outstartsstops_64.cpp | 25 ++++++-------------
 src/python/content.cpp                        |  8 +++---
 3 files changed, 18 insertions(+), 39 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index 726c7d3..b9cbb98 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -3142,23 +3142,13 @@ kernels:
       def awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64(
           outstarts, outstops, distincts, lendistincts, gaps, outlength
       ):
-          j = 0
-          k = 0
-          maxdistinct = -1
-          for i in range(lendistincts):
-              if maxdistinct < distincts[i]:
-                  maxdistinct = distincts[i]
-                  for gappy in range(gaps[j]):
-                      outstarts[k] = i
-                      outstops[k] = i
-                      k = k + 1
-                  j = j + 1
-              if distincts[i] != -1:
-                  outstops[k - 1] = i + 1
-          while k < outlength:
-              outstarts[k] = lendistincts + 1
-              outstops[k] = lendistincts + 1
-              k = k + 1
+          maxcount = lendistincts // outlength if outlength > 0 else 0
+          for k in range(outlength):
+              outstarts[k] = k * maxcount
+              outstops[k] = k * maxcount
+              for i in range(k * maxcount, (k + 1) * maxcount):
+                  if distincts[i] != -1:
+                      outstops[k] = i + 1
     automatic-tests: true
     manual-tests: []
 
diff --git a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
index 5be6ea5..cc879c9 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
@@ -11,26 +11,15 @@ ERROR awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64(
   int64_t lendistincts,
   const int64_t* gaps,
   int64_t outlength) {
-  int64_t j = 0;
-  int64_t k = 0;
-  int64_t maxdistinct = -1;
-  for (int64_t i = 0;  i < lendistincts;  i++) {
-    if (maxdistinct < distincts[i]) {
-      maxdistinct = distincts[i];
-      for (int64_t gappy = 0;  gappy < gaps[j];  gappy++) {
-        outstarts[k] = i;
-        outstops[k] = i;
-        k++;
+  int64_t maxcount = (outlength > 0 ? lendistincts / outlength : 0);
+  for (int64_t k = 0;  k < outlength;  k++) {
+    outstarts[k] = k*maxcount;
+    outstops[k] = k*maxcount;
+    for (int64_t i = k*maxcount;  i < (k + 1)*maxcount;  i++) {
+      if (distincts[i] != -1) {
+        outstops[k] = i + 1;
       }
-      j++;
     }
-    if (distincts[i] != -1) {
-      outstops[k - 1] = i + 1;
-    }
-  }
-  for (;  k < outlength;  k++) {
-    outstarts[k] = lendistincts + 1;
-    outstops[k] = lendistincts + 1;
   }
   return success();
 }
diff --git a/src/python/content.cpp b/src/python/content.cpp
index dc4da47..10ab73d 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -1526,8 +1526,8 @@ content_methods(py::class_<T, std::shared_ptr<T>, ak::Content>& x) {
             }
             else {
               double initial_f64 = initial.cast<double>();
-              uint64_t initial_u64 = (initial_f64 > 0 ? initial.cast<uint64_t>() : 0);
-              int64_t initial_i64 = initial.cast<int64_t>();
+              uint64_t initial_u64 = (initial_f64 > 0 ? initial_cast<uint64_t>(initial) : 0);
+              int64_t initial_i64 = initial_cast<int64_t>(initial);
               ak::ReducerMin reducer(initial_f64, initial_u64, initial_i64);
               return box(self.reduce(reducer, axis, mask, keepdims));
             }
@@ -1546,8 +1546,8 @@ content_methods(py::class_<T, std::shared_ptr<T>, ak::Content>& x) {
             }
             else {
               double initial_f64 = initial.cast<double>();
-              uint64_t initial_u64 = (initial_f64 > 0 ? initial.cast<uint64_t>() : 0);
-              int64_t initial_i64 = initial.cast<int64_t>();
+              uint64_t initial_u64 = (initial_f64 > 0 ? initial_cast<uint64_t>(initial) : 0);
+              int64_t initial_i64 = initial_cast<int64_t>(initial);
               ak::ReducerMax reducer(initial_f64, initial_u64, initial_i64);
               return box(self.reduce(reducer, axis, mask, keepdims));
             }
-- 
2.43.0


From 38e0110adfc3d664c677b0bb5f92de62f86b7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:27 +0000
Subject: [PATCH 07/78] fix: min and max refused a floating-point initial value

---
 src/python/content.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index 10ab73d..cd5b0a8 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -1278,6 +1278,23 @@ withparameter(T& self, const std::string& key, const py::object& value) {
   return box(out);
 }
 
+// A Python int or float as an integer initial value of a reducer.
+template <typename T>
+T
+initial_cast(const py::object& initial) {
+  if (py::isinstance<py::float_>(initial)) {
+    double value = initial.cast<double>();
+    if (value >= (double)std::numeric_limits<T>::max()) {
+      return std::numeric_limits<T>::max();
+    }
+    if (value <= (double)std::numeric_limits<T>::min()) {
+      return std::numeric_limits<T>::min();
+    }
+    return (value == value ? (T)value : 0);
+  }
+  return initial.cast<T>();
+}
+
 template <typename T>
 py::class_<T, std::shared_ptr<T>, ak::Content>
 content_methods(py::class_<T, std::shared_ptr<T>, ak::Content>& x) {
-- 
2.43.0


From 18f6df2ab6c6bcb5f29150db3a354cea0815f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:35 +0000
Subject: [PATCH 08/78] fix: reducing lists whose offsets do not start at zero

argmin/argmax returned positions relative to the content instead of the list,
and reducing lists of missing-value lists raised.
---
 src/libawkward/array/ListOffsetArray.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index cf84921..9b2c0f7 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1353,6 +1353,17 @@ namespace awkward {
     int64_t outlength,
     bool mask,
     bool keepdims) const {
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->reduce_next(reducer,
+                                                          negaxis,
+                                                          starts,
+                                                          shifts,
+                                                          parents,
+                                                          outlength,
+                                                          mask,
+                                                          keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-- 
2.43.0


From 06558a6edd8e9da10ec1139780c56db04d19fc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:35 +0000
Subject: [PATCH 09/78] fix: multidimensional NumpyArrays with a zero-length
 dimension lost their length

---
 src/libawkward/array/NumpyArray.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index bf8c915..0e2c69f 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -494,11 +494,15 @@ namespace awkward {
       contiguous_self.dtype(),
       ptr_lib_);
     for (int64_t i = (int64_t)shape_.size() - 1;  i > 0;  i--) {
+      int64_t zeros_length = 1;
+      for (int64_t j = 0;  j < i;  j++) {
+        zeros_length = zeros_length * shape_[(size_t)j];
+      }
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
                                            shape_[(size_t)i],
-                                           shape_[(size_t)(i - 1)]);
+                                           zeros_length);
     }
     return out;
   }
-- 
2.43.0


From 96062e4b299fb5af6dd1c6ecfc25e9ddee64ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:47 +0000
Subject: [PATCH 10/78] fix: reducing above a regular dimension raised when a
 group had no lists

---
 src/libawkward/array/RegularArray.cpp | 74 +++++++++++++++------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index aaa2fdc..d90c3b8 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1050,6 +1050,38 @@ namespace awkward {
     }
   }
 
+  namespace {
+    // Groups without any list reduce to empty lists, so the result of a
+    // reduction above a regular dimension is not necessarily regular.
+    template <typename LIST>
+    const ContentPtr
+    to_regular_if_possible(const ContentPtr& content, const LIST* raw) {
+      Index64 offsets = raw->compact_offsets64(true);
+      for (int64_t i = 2;  i < offsets.length();  i++) {
+        if (offsets.getitem_at_nowrap(i) - offsets.getitem_at_nowrap(i - 1)
+            != offsets.getitem_at_nowrap(1)) {
+          return content;
+        }
+      }
+      return raw->toRegularArray();
+    }
+
+    const ContentPtr
+    to_regular_if_possible(const ContentPtr& content) {
+      if (ListOffsetArray64* raw =
+          dynamic_cast<ListOffsetArray64*>(content.get())) {
+        return to_regular_if_possible(content, raw);
+      }
+      else if (ListArray64* raw =
+               dynamic_cast<ListArray64*>(content.get())) {
+        return to_regular_if_possible(content, raw);
+      }
+      else {
+        return content;
+      }
+    }
+  }
+
   const ContentPtr
   RegularArray::reduce_next(const Reducer& reducer,
                             int64_t negaxis,
@@ -1080,44 +1112,22 @@ namespace awkward {
 
       if (convert_deep) {
         if (ListOffsetArray64* raw1 = dynamic_cast<ListOffsetArray64*>(out.get())) {
-          if (ListOffsetArray64* raw2 = dynamic_cast<ListOffsetArray64*>(raw1->content().get())) {
-            out = std::make_shared<ListOffsetArray64>(raw1->identities(),
-                                                      raw1->parameters(),
-                                                      raw1->offsets(),
-                                                      raw2->toRegularArray());
-          }
-          else if (ListArray64* raw2 = dynamic_cast<ListArray64*>(raw1->content().get())) {
-            out = std::make_shared<ListOffsetArray64>(raw1->identities(),
-                                                      raw1->parameters(),
-                                                      raw1->offsets(),
-                                                      raw2->toRegularArray());
-          }
+          out = std::make_shared<ListOffsetArray64>(raw1->identities(),
+                                                    raw1->parameters(),
+                                                    raw1->offsets(),
+                                                    to_regular_if_possible(raw1->content()));
         }
         else if (ListArray64* raw1 = dynamic_cast<ListArray64*>(out.get())) {
-          if (ListOffsetArray64* raw2 = dynamic_cast<ListOffsetArray64*>(raw1->content().get())) {
-            out = std::make_shared<ListArray64>(raw1->identities(),
-                                                raw1->parameters(),
-                                                raw1->starts(),
-                                                raw1->stops(),
-                                                raw2->toRegularArray());
-          }
-          else if (ListArray64* raw2 = dynamic_cast<ListArray64*>(raw1->content().get())) {
-            out = std::make_shared<ListArray64>(raw1->identities(),
-                                                raw1->parameters(),
-                                                raw1->starts(),
-                                                raw1->stops(),
-                                                raw2->toRegularArray());
-          }
+          out = std::make_shared<ListArray64>(raw1->identities(),
+                                              raw1->parameters(),
+                                              raw1->starts(),
+                                              raw1->stops(),
+                                              to_regular_if_possible(raw1->content()));
         }
       }
 
       if (convert_shallow) {
-        if (ListOffsetArray64* raw1 = dynamic_cast<ListOffsetArray64*>(out.get())) {
-          out = raw1->toRegularArray();
-        }
-        else if (ListArray64* raw1 = dynamic_cast<ListArray64*>(out.get())) {
-          out = raw1->toRegularArray();
-        }
+        out = to_regular_if_possible(out);
       }
     }
 
-- 
2.43.0


From 4c7e8572f074f128895bad66caff519ed30a8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 11/78] fix: argmin/argmax over missing lists, regular
 dimensions and partitions

---
 src/awkward/_util.py                     |  9 +++++--
 src/awkward/operations/reducers.py       | 22 +++++++++--------
 src/libawkward/array/ListOffsetArray.cpp | 31 +++++++++++++++++++++++-
 3 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 76bde2e..e5dea7a 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -503,9 +503,14 @@ def completely_flatten(array):
 
     elif isinstance(array, ak.layout.NumpyArray):
         if array.format.upper().startswith("M"):
-            return (ak.nplike.of(array).asarray(array.view_int64).view(array.format),)
+            return (
+                ak.nplike.of(array)
+                .asarray(array.view_int64)
+                .view(array.format)
+                .reshape(-1),
+            )
         else:
-            return (ak.nplike.of(array).asarray(array),)
+            return (ak.nplike.of(array).asarray(array).reshape(-1),)
 
     else:
         raise RuntimeError(
diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 5727e07..30c6060 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -717,11 +717,12 @@ def argmin(array, axis=None, keepdims=False, mask_identity=True):
             best_value = None
             for partition in layout.partitions:
                 for tmp in ak._util.completely_flatten(partition):
-                    out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                    if best_index is None or tmp[out] < best_value:
-                        best_index = start + out
-                        best_value = tmp[out]
-                start += len(partition)
+                    if len(tmp) != 0:
+                        out = ak.nplike.of(tmp).argmin(tmp, axis=None)
+                        if best_index is None or tmp[out] < best_value:
+                            best_index = start + out
+                            best_value = tmp[out]
+                        start += len(tmp)
             return best_index
 
         else:
@@ -787,11 +788,12 @@ def argmax(array, axis=None, keepdims=False, mask_identity=True):
             best_value = None
             for partition in layout.partitions:
                 for tmp in ak._util.completely_flatten(partition):
-                    out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                    if best_index is None or tmp[out] > best_value:
-                        best_index = start + out
-                        best_value = tmp[out]
-                start += len(partition)
+                    if len(tmp) != 0:
+                        out = ak.nplike.of(tmp).argmax(tmp, axis=None)
+                        if best_index is None or tmp[out] > best_value:
+                            best_index = start + out
+                            best_value = tmp[out]
+                        start += len(tmp)
             return best_index
 
         else:
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 9b2c0f7..5e03736 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1444,6 +1444,17 @@ namespace awkward {
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
       if (make_shifts) {
+        // If missing lists have been removed above, 'starts' counts them but
+        // list indexes do not: 'groupstarts' does not count them, and the
+        // difference is added to the shifts below.
+        bool has_shifts = (shifts.length() != 0);
+        Index64 groupstarts = (has_shifts ? starts.deep_copy() : starts);
+        if (has_shifts) {
+          for (int64_t i = parents.length() - 1;  i >= 0;  i--) {
+            groupstarts.setitem_at_nowrap(parents.getitem_at_nowrap(i), i);
+          }
+        }
+
         Index64 nummissing(maxcount);
         Index64 missing(offsets_.getitem_at(offsets_.length() - 1));
         struct Error err7 = kernel::ListOffsetArray_reduce_nonlocal_nextshifts_64(
@@ -1453,12 +1464,30 @@ namespace awkward {
           nextshifts.data(),
           offsets_.data(),
           offsets_.length() - 1,
-          starts.data(),
+          groupstarts.data(),
           parents.data(),
           maxcount,
           nextlen,
           nextcarry.data());
         util::handle_error(err7, classname(), identities_.get());
+
+        if (has_shifts) {
+          for (int64_t i = 0;  i < parents.length();  i++) {
+            int64_t parent = parents.getitem_at_nowrap(i);
+            for (int64_t j = offsets_.getitem_at_nowrap(i);
+                 j < offsets_.getitem_at_nowrap(i + 1);
+                 j++) {
+              missing.setitem_at_nowrap(j, shifts.getitem_at_nowrap(i)
+                                           + groupstarts.getitem_at_nowrap(parent)
+                                           - starts.getitem_at_nowrap(parent));
+            }
+          }
+          for (int64_t j = 0;  j < nextlen;  j++) {
+            nextshifts.setitem_at_nowrap(j,
+              nextshifts.getitem_at_nowrap(j)
+              + missing.getitem_at_nowrap(nextcarry.getitem_at_nowrap(j)));
+          }
+        }
       }
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
-- 
2.43.0


From b96fd3a72014628061ff43ddb713cef3fc379edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:22 +0000
Subject: [PATCH 12/78] fix: argmin/argmax through an IndexedArray ignored
 shorter lists before it

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 5421987..3f6615b 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2249,7 +2249,7 @@ namespace awkward {
     ContentPtr out = next.get()->reduce_next(reducer,
                                              negaxis,
                                              starts,
-                                             nextshifts,
+                                             (ISOPTION ? nextshifts : shifts),
                                              nextparents,
                                              outlength,
                                              mask,
-- 
2.43.0


From 27dd98b67db5a579bd5eaaa78159ea239733793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:21 +0000
Subject: [PATCH 13/78] fix: argmin/argmax over missing lists: keep positions
 of deeper axes as they were

---
 src/libawkward/array/ListOffsetArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 5e03736..491b9eb 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1440,7 +1440,8 @@ namespace awkward {
         outlength);
       util::handle_error(err6, classname(), identities_.get());
 
-      bool make_shifts = reducer.returns_positions();
+      bool make_shifts = (reducer.returns_positions()  &&
+                          branchdepth.second == 2);
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
       if (make_shifts) {
-- 
2.43.0


From 0275ebb7b5d5d34abca69ce42565aa612ddd442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:48 +0000
Subject: [PATCH 14/78] fix: sorting strings compared past embedded nulls and
 without a strict order

---
 .../awkward_ListOffsetArray_argsort_strings.cpp   | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index 932270c..7900f85 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -19,24 +19,17 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
   const int64_t* stringstops) {
 
   auto sorter =
-        [&stringdata, &stringstarts, &stringstops](int left, int right) -> bool {
+        [&stringdata, &stringstarts, &stringstops](int64_t left, int64_t right) -> bool {
           size_t left_n = stringstops[left] - stringstarts[left];
           size_t right_n = stringstops[right] - stringstarts[right];
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
-          int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
-          bool out;
+          int cmp = memcmp(left_str, right_str, std::min(left_n, right_n));
           if (cmp == 0) {
-            out = left_n < right_n;
+            return is_ascending ? left_n < right_n : left_n > right_n;
           }
           else {
-            out = cmp < 0;
-          }
-          if (is_ascending) {
-            return out;
-          }
-          else {
-            return !out;
+            return is_ascending ? cmp < 0 : cmp > 0;
           }
         };
 
-- 
2.43.0


From cf084dddf24745143fefcf7950a69ab1f5272371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:48 +0000
Subject: [PATCH 15/78] fix: sort and argsort of missing lists, regular
 dimensions and lists with nonzero offsets

Sorting lists whose offsets do not start at zero, or strings whose characters
are not contiguous, returned the wrong elements; sorting above missing or
regular lists raised, wrote outside its output or returned another structure.
---
 src/libawkward/Content.cpp               |  56 +++++---
 src/libawkward/array/IndexedArray.cpp    | 170 ++++-------------------
 src/libawkward/array/ListOffsetArray.cpp |  28 +++-
 src/libawkward/array/RecordArray.cpp     |   4 +-
 src/libawkward/array/RegularArray.cpp    |  38 +++--
 src/libawkward/array/UnmaskedArray.cpp   |  36 ++---
 6 files changed, 120 insertions(+), 212 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index c7134f7..d7b25a8 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1046,6 +1046,42 @@ namespace awkward {
     return next.get()->getitem_at_nowrap(0);
   }
 
+  namespace {
+    // Records have no order of their own, so a sorted array of records is a
+    // single record of sorted fields. Missing lists can't be lined up with
+    // the others along an axis above them, so they are not in the result.
+    const ContentPtr
+    sorted_toplevel(const ContentPtr& out, bool axis_is_zero) {
+      if (RecordArray* raw = dynamic_cast<RecordArray*>(out.get())) {
+        if (raw->length() == 0) {
+          return out;
+        }
+        ContentPtrVec contents;
+        for (auto content : raw->contents()) {
+          contents.push_back(
+            std::make_shared<RegularArray>(Identities::none(),
+                                           util::Parameters(),
+                                           content,
+                                           content.get()->length(),
+                                           1));
+        }
+        ContentPtr single = std::make_shared<RecordArray>(Identities::none(),
+                                                          raw->parameters(),
+                                                          contents,
+                                                          raw->recordlookup(),
+                                                          1);
+        return single.get()->getitem_at_nowrap(0);
+      }
+      else if (IndexedOptionArray64* raw =
+               dynamic_cast<IndexedOptionArray64*>(out.get())) {
+        if (axis_is_zero  &&  raw->purelist_depth() != 1) {
+          return raw->project();
+        }
+      }
+      return out;
+    }
+  }
+
   const ContentPtr
   Content::argsort(int64_t axis, bool ascending, bool stable) const {
     int64_t negaxis = -axis;
@@ -1096,14 +1132,8 @@ namespace awkward {
                                   1,
                                   ascending,
                                   stable,
-                                  true);
-
-     if (out.get()->length() == 0) {
-       return out.get()->getitem_nothing();
-     }
-     else {
-       return out.get()->getitem_at_nowrap(0);
-     }
+                                  false);
+    return sorted_toplevel(out, branch_depth().second == negaxis);
   }
 
   const ContentPtr
@@ -1162,14 +1192,8 @@ namespace awkward {
                                1,
                                ascending,
                                stable,
-                               true);
-
-    if (out.get()->length() == 0) {
-      return out.get()->getitem_nothing();
-    }
-    else {
-      return out.get()->getitem_at_nowrap(0);
-    }
+                               false);
+    return sorted_toplevel(out, branch_depth().second == negaxis);
   }
 
   const util::Parameters
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 3f6615b..ef9faef 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2392,7 +2392,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2417,12 +2416,6 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
-    std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
-    }
     ContentPtr out = next.get()->sort_next(negaxis,
                                            starts,
                                            nextparents,
@@ -2431,81 +2424,32 @@ namespace awkward {
                                            stable,
                                            keepdims);
 
+    std::pair<bool, int64_t> branchdepth = branch_depth();
+    if (branchdepth.first  ||  negaxis != branchdepth.second) {
+      // the sorted axis is deeper than this node: missing values stay in place
+      IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
+                                            parameters_,
+                                            outindex,
+                                            out);
+      return tmp.simplify_optiontype();
+    }
+
     Index64 nextoutindex(parents_length);
     struct Error err3 = kernel::IndexedArray_local_preparenext_64(
-        kernel::lib::cpu,   // DERIVE
-        nextoutindex.data(),
-        starts.data(),
-        parents.data(),
-        parents_length,
-        nextparents.data(),
-        next_length);
+      kernel::lib::cpu,   // DERIVE
+      nextoutindex.data(),
+      starts.data(),
+      parents.data(),
+      parents_length,
+      nextparents.data(),
+      next_length);
     util::handle_error(err3, classname(), identities_.get());
 
     IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
                                           parameters_,
                                           nextoutindex,
                                           out);
-    out = tmp.simplify_optiontype();
-
-    if (inject_nones) {
-      out = std::make_shared<RegularArray>(Identities::none(),
-                                           util::Parameters(),
-                                           out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
-    }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-        out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("sort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              parameters_,
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("sort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
-    }
-
-    return out;
+    return tmp.simplify_optiontype();
   }
 
   template <typename T, bool ISOPTION>
@@ -2524,7 +2468,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2549,12 +2492,6 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
-    std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
-    }
     ContentPtr out = next.get()->argsort_next(negaxis,
                                               starts,
                                               nextparents,
@@ -2563,6 +2500,16 @@ namespace awkward {
                                               stable,
                                               keepdims);
 
+    std::pair<bool, int64_t> branchdepth = branch_depth();
+    if (branchdepth.first  ||  negaxis != branchdepth.second) {
+      // the sorted axis is deeper than this node: missing values stay in place
+      IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
+                                            util::Parameters(),
+                                            outindex,
+                                            out);
+      return tmp.simplify_optiontype();
+    }
+
     Index64 nextoutindex(parents_length);
     struct Error err3 = kernel::IndexedArray_local_preparenext_64(
       kernel::lib::cpu,   // DERIVE
@@ -2578,66 +2525,7 @@ namespace awkward {
                                           util::Parameters(),
                                           nextoutindex,
                                           out);
-    out = tmp.simplify_optiontype();
-
-    if (inject_nones) {
-      out = std::make_shared<RegularArray>(Identities::none(),
-                                           util::Parameters(),
-                                           out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
-    }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-          out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("argsort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              util::Parameters(),
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("argsort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
-    }
-
-    return out;
+    return tmp.simplify_optiontype();
   }
 
   template <typename T, bool ISOPTION>
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 491b9eb..e3963aa 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1757,6 +1757,16 @@ namespace awkward {
       return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->sort_next(negaxis,
+                                                        starts,
+                                                        parents,
+                                                        outlength,
+                                                        ascending,
+                                                        stable,
+                                                        keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
@@ -1772,6 +1782,7 @@ namespace awkward {
         throw std::invalid_argument(validity_error + FILENAME(__LINE__));
       }
       NumpyArray* rawcontent = dynamic_cast<NumpyArray*>(content_.get());
+      NumpyArray charcontent = rawcontent->contiguous();
 
       Index64 tocarry(parents.length());
       struct Error err = kernel::ListOffsetArray_argsort_strings(
@@ -1779,7 +1790,7 @@ namespace awkward {
         tocarry.data(),
         parents.data(),
         parents.length(),
-        reinterpret_cast<uint8_t*>(rawcontent->data()),
+        reinterpret_cast<uint8_t*>(charcontent.data()),
         util::make_starts(offsets_).data(),
         util::make_stops(offsets_).data(),
         stable,
@@ -1863,7 +1874,7 @@ namespace awkward {
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
 
       ContentPtr outcontent = nextcontent.get()->sort_next(
-        negaxis - 1, nextstarts, nextparents, nextcontent.get()->length(),
+        negaxis - 1, nextstarts, nextparents, maxnextparents + 1,
         ascending, stable, false);
 
       Index64 outcarry(nextlen);
@@ -1961,6 +1972,16 @@ namespace awkward {
      return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->argsort_next(negaxis,
+                                                           starts,
+                                                           parents,
+                                                           outlength,
+                                                           ascending,
+                                                           stable,
+                                                           keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
@@ -1976,6 +1997,7 @@ namespace awkward {
         throw std::invalid_argument(validity_error + FILENAME(__LINE__));
       }
       NumpyArray* rawcontent = dynamic_cast<NumpyArray*>(content_.get());
+      NumpyArray charcontent = rawcontent->contiguous();
 
       Index64 output(parents.length());
       struct Error err = kernel::ListOffsetArray_argsort_strings(
@@ -1983,7 +2005,7 @@ namespace awkward {
         output.data(),
         parents.data(),
         parents.length(),
-        reinterpret_cast<uint8_t*>(rawcontent->data()),
+        reinterpret_cast<uint8_t*>(charcontent.data()),
         util::make_starts(offsets_).data(),
         util::make_stops(offsets_).data(),
         stable,
diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 1e3fed9..5f00fbb 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1626,7 +1626,7 @@ namespace awkward {
                                          parameters_,
                                          contents,
                                          recordlookup_,
-                                         outlength);
+                                         length());
   }
 
   const ContentPtr
@@ -1657,7 +1657,7 @@ namespace awkward {
       util::Parameters(),
       contents,
       recordlookup_,
-      outlength);
+      length());
   }
 
   const ContentPtr
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index d90c3b8..3920ec6 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1301,17 +1301,14 @@ namespace awkward {
                                        ascending,
                                        stable,
                                        keepdims);
-    if (RegularArray* raw1 =
-            dynamic_cast<RegularArray*>(out.get())) {
-      if (ListOffsetArray64* raw2 =
-              dynamic_cast<ListOffsetArray64*>(raw1->content().get())) {
-        return std::make_shared<RegularArray>(
-            raw1->identities(),
-            raw1->parameters(),
-            raw2->toRegularArray(),
-            raw1->size(),
-            raw1->length());
-      }
+    if (ListOffsetArray64* raw =
+            dynamic_cast<ListOffsetArray64*>(out.get())) {
+      return std::make_shared<RegularArray>(
+          raw->identities(),
+          raw->parameters(),
+          raw->content(),
+          size_,
+          length());
     }
     return out;
   }
@@ -1335,17 +1332,14 @@ namespace awkward {
                                        ascending,
                                        stable,
                                        keepdims);
-    if (RegularArray* raw1 =
-            dynamic_cast<RegularArray*>(out.get())) {
-      if (ListOffsetArray64* raw2 =
-              dynamic_cast<ListOffsetArray64*>(raw1->content().get())) {
-        return std::make_shared<RegularArray>(
-            raw1->identities(),
-            raw1->parameters(),
-            raw2->toRegularArray(),
-            raw1->size(),
-            raw1->length());
-      }
+    if (ListOffsetArray64* raw =
+            dynamic_cast<ListOffsetArray64*>(out.get())) {
+      return std::make_shared<RegularArray>(
+          raw->identities(),
+          raw->parameters(),
+          raw->content(),
+          size_,
+          length());
     }
     return out;
   }
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index d1ef89b..587b36b 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -980,20 +980,10 @@ namespace awkward {
                                                              ascending,
                                                              stable,
                                                              keepdims);
-    if (RegularArray* raw = dynamic_cast<RegularArray*>(out.get())) {
-      UnmaskedArray tmp(Identities::none(),
-                        parameters_,
-                        raw->content());
-      return std::make_shared<RegularArray>(
-          raw->identities(),
-          raw->parameters(),
-          tmp.simplify_optiontype(),
-          raw->size(),
-          length());
-    }
-    else {
-      return out;
-    }
+    UnmaskedArray tmp(Identities::none(),
+                      parameters_,
+                      out);
+    return tmp.simplify_optiontype();
   }
 
   const ContentPtr
@@ -1014,20 +1004,10 @@ namespace awkward {
                                                                 ascending,
                                                                 stable,
                                                                 keepdims);
-    if (RegularArray* raw = dynamic_cast<RegularArray*>(out.get())) {
-      UnmaskedArray tmp(Identities::none(),
-                        parameters_,
-                        raw->content());
-      return std::make_shared<RegularArray>(
-          raw->identities(),
-          raw->parameters(),
-          tmp.simplify_optiontype(),
-          raw->size(),
-          length());
-    }
-    else {
-      return out;
-    }
+    UnmaskedArray tmp(Identities::none(),
+                      util::Parameters(),
+                      out);
+    return tmp.simplify_optiontype();
   }
 
   const ContentPtr
-- 
2.43.0


From 1e7a7e28d44677ef8b2eaae4b7ce8c76855ebd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 16/78] fix: complex argmin/argmax compared the wrong elements
 and read outside the input

---
 src/cpu-kernels/awkward_reduce_argmax_complex.cpp | 6 +++---
 src/cpu-kernels/awkward_reduce_argmin_complex.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
index 37069b7..e281bb7 100644
--- a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmax_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] > fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] > fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] > fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] > fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
index 711c050..a106410 100644
--- a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmin_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] < fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] < fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] < fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] < fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
-- 
2.43.0


From 2a3e98f39a0a17eb62322a43e517d5363ecfadd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 17/78] fix: checking strings for uniqueness read outside for
 more than 255 or empty strings

---
 src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp | 4 +---
 src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp | 4 ++--
 src/libawkward/array/IndexedArray.cpp                       | 2 +-
 src/libawkward/array/ListOffsetArray.cpp                    | 5 ++++-
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
index fe55538..5ca2932 100644
--- a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
@@ -27,10 +27,8 @@ ERROR awkward_NumpyArray_sort_asstrings_uint8(
   for (int64_t k = 0;  k < offsetslength - 1;  k++) {
     int64_t start = offsets[k];
     int64_t stop = offsets[k + 1];
-    int64_t slen = start;
     std::string strvar;
-    for (uint8_t i = (uint8_t)start;  slen < stop;  i++) {
-      slen++;
+    for (int64_t i = start;  i < stop;  i++) {
       strvar += (char)fromptr[i];
     }
     words.emplace_back(strvar);
diff --git a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
index cbebea3..1f0565a 100644
--- a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
@@ -20,7 +20,7 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
 
   for (int64_t i = 0;  i < offsetslength - 1;  i++) {
     differ = false;
-    if (offsets[i + 1] - offsets[i] != slen) {
+    if (i == 0  ||  offsets[i + 1] - offsets[i] != slen) {
       differ = true;
     }
     else {
@@ -32,9 +32,9 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
       }
     }
     if (differ) {
+      start = index;
       for (int64_t j = offsets[i]; j < offsets[i + 1]; j++) {
         toptr[index++] = toptr[j];
-        start = offsets[i];
      }
      counter++;
    }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index ef9faef..1922751 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2755,7 +2755,7 @@ namespace awkward {
   bool
   IndexedArrayOf<T, ISOPTION>::is_unique() const {
     Index64 start(1);
-    start.setitem_at_nowrap(0, index().offset());
+    start.setitem_at_nowrap(0, 0);
     Index64 stop(1);
     stop.setitem_at_nowrap(0, index().length());
     return is_subrange_equal(start, stop);
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index e3963aa..2dcfb9f 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2486,8 +2486,11 @@ namespace awkward {
   bool ListOffsetArrayOf<int64_t>::is_unique() const {
     if (parameter_equals("__array__", "\"string\"")  ||
         parameter_equals("__array__", "\"bytestring\"")) {
+      if (offsets_.getitem_at_nowrap(0) != 0) {
+        return toListOffsetArray64(true).get()->is_unique();
+      }
       if (NumpyArray* content = dynamic_cast<NumpyArray*>(content_.get())) {
-        ContentPtr out = content->as_unique_strings(offsets_);
+        ContentPtr out = content->contiguous().as_unique_strings(offsets_);
         return (out.get()->length() == length());
       }
     }
-- 
2.43.0


From d775cc7a1846b755903c2b2b39359c7308d15bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 18/78] fix: padding an empty ListArray read its first list

---
 src/libawkward/array/ListArray.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 24d52c2..48e0b0d 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1319,13 +1319,15 @@ namespace awkward {
     }
     else if (posaxis == depth + 1) {
       int64_t min = target;
-      struct Error err1 = kernel::ListArray_min_range<T>(
-        kernel::lib::cpu,   // DERIVE
-        &min,
-        starts_.data(),
-        stops_.data(),
-        starts_.length());
-      util::handle_error(err1, classname(), identities_.get());
+      if (starts_.length() != 0) {
+        struct Error err1 = kernel::ListArray_min_range<T>(
+          kernel::lib::cpu,   // DERIVE
+          &min,
+          starts_.data(),
+          stops_.data(),
+          starts_.length());
+        util::handle_error(err1, classname(), identities_.get());
+      }
       if (target < min) {
         return shallow_copy();
       }
-- 
2.43.0


From fb7f6b51d6c51f8d3521ad184a4f5f3ab5b1a231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 19/78] fix: combinations of a RegularArray sized its work
 arrays by the wrong number

---
 src/libawkward/array/RegularArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 3920ec6..d62c3e1 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1228,10 +1228,10 @@ namespace awkward {
       }
       std::shared_ptr<int64_t> toindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
       std::shared_ptr<int64_t> fromindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
 
       if (size_ != 0) {
         struct Error err = kernel::RegularArray_combinations_64(
-- 
2.43.0


From 5cd674f9bf091585c6535da1943ae0dd83e37790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 20/78] fix: copying, printing, converting and checking strided
 or offset NumpyArrays read outside their buffers

---
 src/libawkward/array/NumpyArray.cpp | 116 ++++++++++++++++------------
 1 file changed, 67 insertions(+), 49 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 0e2c69f..2b002c9 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -459,6 +459,9 @@ namespace awkward {
     else {
       ssize_t out = itemsize_;
       for (size_t i = 0;  i < shape_.size();  i++) {
+        if (shape_[i] == 0) {
+          return 0;
+        }
         out += (shape_[i] - 1)*strides_[i];
       }
       return out;
@@ -647,9 +650,8 @@ namespace awkward {
     if (length <= 10) {
       for (int64_t i = 0;  i < length;  i++) {
         T* ptr2 = reinterpret_cast<T*>(
-            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i * 2));
-        T* ptr3 = reinterpret_cast<T*>(
-            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i * 2 + 1));
+            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i));
+        T* ptr3 = ptr2 + 1;
         if (i != 0) {
           out << " ";
         }
@@ -662,9 +664,8 @@ namespace awkward {
     else {
       for (int64_t i = 0;  i < 5;  i++) {
         T* ptr2 = reinterpret_cast<T*>(
-            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i) * 2);
-        T* ptr3 = reinterpret_cast<T*>(
-            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i * 2 + 1));
+            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i));
+        T* ptr3 = ptr2 + 1;
         if (i != 0) {
           out << " ";
         }
@@ -676,9 +677,8 @@ namespace awkward {
       out << " ... ";
       for (int64_t i = length - 5;  i < length;  i++) {
         T* ptr2 = reinterpret_cast<T*>(
-            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i) * 2);
-        T* ptr3 = reinterpret_cast<T*>(
-            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i * 2 + 1));
+            reinterpret_cast<ssize_t>(ptr) + stride*((ssize_t)i));
+        T* ptr3 = ptr2 + 1;
         if (i != length - 5) {
           out << " ";
         }
@@ -690,6 +690,18 @@ namespace awkward {
     }
   }
 
+  static const std::string
+  datetime_tostring(time_t time) {
+    char outbuf[30];
+    struct tm* parts = gmtime(&time);
+    if (parts == nullptr  ||
+        strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", parts) == 0) {
+      // the year does not fit in a struct tm
+      return std::to_string((int64_t)time) + std::string("s");
+    }
+    return std::string(outbuf);
+  }
+
   template <typename T>
   void tostring_as_datetime(kernel::lib ptr_lib,
                    std::stringstream& out,
@@ -700,7 +712,6 @@ namespace awkward {
                    const std::string& format) {
     const std::string units = util::format_to_units(format);
     double scale = util::scale_from_units(format, (uint64_t)util::datetime_units::s);
-    char outbuf[30];
 
     if (length <= 10) {
       for (int64_t i = 0;  i < length;  i++) {
@@ -711,8 +722,7 @@ namespace awkward {
         }
         if (dtype == util::dtype::datetime64) {
           time_t time = (int64_t)(kernel::NumpyArray_getitem_at0(ptr_lib, ptr2) * scale);
-          strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", gmtime(&time));
-          out << outbuf;
+          out << datetime_tostring(time);
         }
         else if (dtype == util::dtype::timedelta64) {
           out << (int64_t)kernel::NumpyArray_getitem_at0(ptr_lib, ptr2);
@@ -732,8 +742,7 @@ namespace awkward {
         }
         if (dtype == util::dtype::datetime64) {
           time_t time = (int64_t)(kernel::NumpyArray_getitem_at0(ptr_lib, ptr2) * scale);
-          strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", gmtime(&time));
-          out << outbuf;
+          out << datetime_tostring(time);
         }
         else if (dtype == util::dtype::timedelta64) {
           out << (int64_t)kernel::NumpyArray_getitem_at0(ptr_lib, ptr2);
@@ -752,8 +761,7 @@ namespace awkward {
         }
         if (dtype == util::dtype::datetime64) {
           time_t time = (int64_t)(kernel::NumpyArray_getitem_at0(ptr_lib, ptr2) * scale);
-          strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", gmtime(&time));
-          out << outbuf;
+          out << datetime_tostring(time);
         }
         else if (dtype == util::dtype::timedelta64) {
           out << (int64_t)kernel::NumpyArray_getitem_at0(ptr_lib, ptr2);
@@ -916,7 +924,7 @@ namespace awkward {
       tostring_as_complex<float>(ptr_lib(),
                                  out,
                                  reinterpret_cast<float*>(data()),
-                                 strides_[0] >> 1,
+                                 strides_[0],
                                  length(),
                                  dtype_);
     }
@@ -924,7 +932,7 @@ namespace awkward {
       tostring_as_complex<double>(ptr_lib(),
                                   out,
                                   reinterpret_cast<double*>(data()),
-                                  strides_[0] >> 1,
+                                  strides_[0],
                                   length(),
                                   dtype_);
     }
@@ -948,14 +956,15 @@ namespace awkward {
     }
     else {
       out << "0x ";
-      ssize_t len = bytelength();
+      NumpyArray flat = contiguous();
+      ssize_t len = flat.bytelength();
       if (len <= 32) {
         for (ssize_t i = 0;  i < len;  i++) {
           if (i != 0  &&  i % 4 == 0) {
             out << " ";
           }
           unsigned char* ptr2 = reinterpret_cast<unsigned char*>(
-              reinterpret_cast<ssize_t>(data()) + (ssize_t)i);
+              reinterpret_cast<ssize_t>(flat.data()) + (ssize_t)i);
           out << std::hex << std::setw(2) << std::setfill('0')
               << (int64_t)((unsigned char)kernel::NumpyArray_getitem_at0(ptr_lib_, ptr2));
         }
@@ -966,7 +975,7 @@ namespace awkward {
             out << " ";
           }
           unsigned char* ptr2 = reinterpret_cast<unsigned char*>(
-              reinterpret_cast<ssize_t>(data()) + (ssize_t)i);
+              reinterpret_cast<ssize_t>(flat.data()) + (ssize_t)i);
           out << std::hex << std::setw(2) << std::setfill('0')
               << (int64_t)((unsigned char)kernel::NumpyArray_getitem_at0(ptr_lib_, ptr2));
         }
@@ -976,7 +985,7 @@ namespace awkward {
             out << " ";
           }
           unsigned char* ptr2 = reinterpret_cast<unsigned char*>(
-              reinterpret_cast<ssize_t>(data()) + (ssize_t)i);
+              reinterpret_cast<ssize_t>(flat.data()) + (ssize_t)i);
           out << std::hex << std::setw(2) << std::setfill('0')
               << (int64_t)((unsigned char)kernel::NumpyArray_getitem_at0(ptr_lib_, ptr2));
         }
@@ -1156,6 +1165,7 @@ namespace awkward {
           reinterpret_cast<uint8_t*>(data()),
           bytelength());
         util::handle_error(err, classname(), identities_.get());
+        byteoffset = 0;
       }
     }
     IdentitiesPtr identities = identities_;
@@ -1176,7 +1186,7 @@ namespace awkward {
 
   void
   NumpyArray::check_for_iteration() const {
-    if (identities_.get() != nullptr  &&
+    if (identities_.get() != nullptr  &&  !isscalar()  &&
         identities_.get()->length() < shape_[0]) {
       util::handle_error(
         failure("len(identities) < len(array)",
@@ -5123,51 +5133,55 @@ namespace awkward {
       if (contiguous_self.identities().get() != nullptr) {
         identities = contiguous_self.identities().get()->deep_copy();
       }
+      int64_t flatlength = 1;
+      for (auto x : shape) {
+        flatlength *= (int64_t)x;
+      }
       std::shared_ptr<void> ptr;
       switch (dtype_) {
       case util::dtype::boolean:
         ptr = as_type<bool>(reinterpret_cast<bool*>(contiguous_self.data()),
-                            contiguous_self.length(),
+                            flatlength,
                             dtype);
         break;
       case util::dtype::int8:
         ptr = as_type<int8_t>(reinterpret_cast<int8_t*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::int16:
         ptr = as_type<int16_t>(reinterpret_cast<int16_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int32:
         ptr = as_type<int32_t>(reinterpret_cast<int32_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::int64:
         ptr = as_type<int64_t>(reinterpret_cast<int64_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint8:
         ptr = as_type<uint8_t>(reinterpret_cast<uint8_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               flatlength,
                                dtype);
         break;
       case util::dtype::uint16:
         ptr = as_type<uint16_t>(reinterpret_cast<uint16_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint32:
         ptr = as_type<uint32_t>(reinterpret_cast<uint32_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::uint64:
         ptr = as_type<uint64_t>(reinterpret_cast<uint64_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                flatlength,
                                 dtype);
         break;
       case util::dtype::float16:
@@ -5177,12 +5191,12 @@ namespace awkward {
         break;
       case util::dtype::float32:
         ptr = as_type<float>(reinterpret_cast<float*>(contiguous_self.data()),
-                             contiguous_self.length(),
+                             flatlength,
                              dtype);
         break;
       case util::dtype::float64:
         ptr = as_type<double>(reinterpret_cast<double*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              flatlength,
                               dtype);
         break;
       case util::dtype::float128:
@@ -5192,12 +5206,12 @@ namespace awkward {
         break;
       case util::dtype::complex64:
         ptr = as_type<std::complex<float>>(reinterpret_cast<std::complex<float>*>(contiguous_self.data()),
-                                           contiguous_self.length(),
+                                           flatlength,
                                            dtype);
         break;
       case util::dtype::complex128:
         ptr = as_type<std::complex<double>>(reinterpret_cast<std::complex<double>*>(contiguous_self.data()),
-                                            contiguous_self.length(),
+                                            flatlength,
                                             dtype);
         break;
       case util::dtype::complex256:
@@ -5232,7 +5246,7 @@ namespace awkward {
   bool
   NumpyArray::is_unique() const {
     if (ndim() == 1) {
-      const ContentPtr out = unique_data();
+      const ContentPtr out = contiguous().unique_data();
       return (out.get()->length() == length());
     }
     else {
@@ -5246,7 +5260,7 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::unique() const {
-    return unique_data();
+    return contiguous().unique_data();
   }
 
   template<typename T>
@@ -5305,59 +5319,63 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
 
+    if (!iscontiguous()) {
+      return contiguous().is_subrange_equal(starts, stops);
+    }
+
     bool is_equal = false;
 
     switch (dtype_) {
     case util::dtype::boolean:
-      is_equal = subranges_equal<bool>(reinterpret_cast<bool*>(ptr_.get()),
+      is_equal = subranges_equal<bool>(reinterpret_cast<bool*>(data()),
                                        length(),
                                        starts,
                                        stops);
       break;
     case util::dtype::int8:
-      is_equal = subranges_equal<int8_t>(reinterpret_cast<int8_t*>(ptr_.get()),
+      is_equal = subranges_equal<int8_t>(reinterpret_cast<int8_t*>(data()),
                                          length(),
                                          starts,
                                          stops);
       break;
     case util::dtype::int16:
-      is_equal = subranges_equal<int16_t>(reinterpret_cast<int16_t*>(ptr_.get()),
+      is_equal = subranges_equal<int16_t>(reinterpret_cast<int16_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::int32:
-      is_equal = subranges_equal<int32_t>(reinterpret_cast<int32_t*>(ptr_.get()),
+      is_equal = subranges_equal<int32_t>(reinterpret_cast<int32_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::int64:
-      is_equal = subranges_equal<int64_t>(reinterpret_cast<int64_t*>(ptr_.get()),
+      is_equal = subranges_equal<int64_t>(reinterpret_cast<int64_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::uint8:
-      is_equal = subranges_equal<uint8_t>(reinterpret_cast<uint8_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint8_t>(reinterpret_cast<uint8_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::uint16:
-      is_equal = subranges_equal<uint16_t>(reinterpret_cast<uint16_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint16_t>(reinterpret_cast<uint16_t*>(data()),
                                            length(),
                                            starts,
                                            stops);
       break;
     case util::dtype::uint32:
-      is_equal = subranges_equal<uint32_t>(reinterpret_cast<uint32_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint32_t>(reinterpret_cast<uint32_t*>(data()),
                                            length(),
                                            starts,
                                            stops);
       break;
     case util::dtype::uint64:
-      is_equal = subranges_equal<uint64_t>(reinterpret_cast<uint64_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint64_t>(reinterpret_cast<uint64_t*>(data()),
                                            length(),
                                            starts,
                                            stops);
@@ -5367,13 +5385,13 @@ namespace awkward {
         std::string("FIXME: is_subrange_equal for float16 not implemented")
         + FILENAME(__LINE__));
     case util::dtype::float32:
-      is_equal = subranges_equal<float>(reinterpret_cast<float*>(ptr_.get()),
+      is_equal = subranges_equal<float>(reinterpret_cast<float*>(data()),
                                         length(),
                                         starts,
                                         stops);
       break;
     case util::dtype::float64:
-      is_equal = subranges_equal<double>(reinterpret_cast<double*>(ptr_.get()),
+      is_equal = subranges_equal<double>(reinterpret_cast<double*>(data()),
                                          length(),
                                          starts,
                                          stops);
-- 
2.43.0


From 789ab89b5798ef5a65b06c34bc4acfaff3c199aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 21/78] fix: repartitioning with empty partitions read past the
 last one

---
 .../partition/IrregularlyPartitionedArray.cpp       | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/partition/IrregularlyPartitionedArray.cpp b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
index 1b02b02..4dddaeb 100644
--- a/src/libawkward/partition/IrregularlyPartitionedArray.cpp
+++ b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
@@ -68,11 +68,15 @@ namespace awkward {
     if (stops == stops_) {
       return shallow_copy();
     }
-    if (stops.back() != stops_.back()) {
+    int64_t total = (stops.empty() ? 0 : stops.back());
+    if (total != stops_.back()) {
       throw std::invalid_argument(
         std::string("cannot repartition array of length ")
         + std::to_string(stops_.back()) + std::string(" to length ")
-        + std::to_string(stops.back()) + FILENAME(__LINE__));
+        + std::to_string(total) + FILENAME(__LINE__));
+    }
+    if (stops.empty()) {
+      return repartition(std::vector<int64_t>({ 0 }));
     }
 
     int64_t partitionid = 0;
@@ -85,6 +89,11 @@ namespace awkward {
 
       while (dst.get() == nullptr  ||  dst.get()->length() < length) {
         ContentPtr piece(nullptr);
+        if (partitionid == (int64_t)partitions_.size()) {
+          // only empty partitions are left to fill
+          partitionid--;
+          index = partitions_[(size_t)partitionid].get()->length();
+        }
         ContentPtr src = partitions_[(size_t)partitionid];
         int64_t available = src.get()->length() - index;
         int64_t desired = (dst.get() == nullptr ? length
-- 
2.43.0


From 651000c72ea5c98a12d12c0f30c26fd68fe2146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 22/78] fix: a jagged or flat slice shorter than the array was
 read beyond its end

---
 src/cpu-kernels/awkward_Index_carry.cpp |  2 +-
 src/libawkward/Slice.cpp                | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_Index_carry.cpp b/src/cpu-kernels/awkward_Index_carry.cpp
index 3b1dfc5..4a8b514 100644
--- a/src/cpu-kernels/awkward_Index_carry.cpp
+++ b/src/cpu-kernels/awkward_Index_carry.cpp
@@ -13,7 +13,7 @@ ERROR awkward_index_carry(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     T j = carry[i];
-    if (j > lenfromindex) {
+    if (j >= lenfromindex) {
       return failure("index out of range", kSliceNone, j, FILENAME(__LINE__));
     }
     toindex[i] = fromindex[(size_t)(j)];
diff --git a/src/libawkward/Slice.cpp b/src/libawkward/Slice.cpp
index 94c961b..1fddad0 100644
--- a/src/libawkward/Slice.cpp
+++ b/src/libawkward/Slice.cpp
@@ -1,6 +1,7 @@
 // BSD 3-Clause License; see https://github.com/scikit-hep/awkward-1.0/blob/main/LICENSE
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/Slice.cpp", line)
+#define FILENAME_C(line) FILENAME_FOR_EXCEPTIONS_C("src/libawkward/Slice.cpp", line)
 
 #include <algorithm>
 #include <sstream>
@@ -670,6 +671,17 @@ namespace awkward {
   template <typename T>
   const SliceItemPtr
   SliceJaggedOf<T>::carry(const Index64& carry) const {
+    for (int64_t i = 0;  i < carry.length();  i++) {
+      if (carry.getitem_at_nowrap(i) >= length()) {
+        util::handle_error(
+          failure("jagged slice length differs from array length",
+                  i,
+                  kSliceNone,
+                  FILENAME_C(__LINE__)),
+          "SliceJaggedOf<T>",
+          nullptr);
+      }
+    }
     IndexOf<T> nextoffsets(carry.length() + 1);
 
     struct Error err1 = kernel::carry_SliceJagged_offsets<T>(
-- 
2.43.0


From 31218070de2878698f8f7260dece617972d323a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 23/78] fix: flattening a union with possibilities of different
 depths dereferenced null

---
 src/libawkward/array/UnionArray.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 59fab9a..9d69bbf 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -1548,6 +1548,7 @@ namespace awkward {
     }
     else {
       bool has_offsets = false;
+      bool has_no_offsets = false;
       std::vector<std::shared_ptr<int64_t>> offsetsptrs;
       std::vector<int64_t*> offsetsraws;
       ContentPtrVec contents;
@@ -1558,7 +1559,18 @@ namespace awkward {
         offsetsptrs.push_back(offsets.ptr());
         offsetsraws.push_back(offsets.data());
         contents.push_back(pair.second);
-        has_offsets = (offsets.length() != 0);
+        if (offsets.length() != 0) {
+          has_offsets = true;
+        }
+        else if (content.get()->length() != 0) {
+          has_no_offsets = true;
+        }
+      }
+      if (has_offsets  &&  has_no_offsets) {
+        throw std::invalid_argument(
+          std::string("cannot flatten a union whose possibilities have the "
+                      "flattened dimension at different depths")
+          + FILENAME(__LINE__));
       }
 
       if (has_offsets) {
-- 
2.43.0


From b7c98736b4c73db073fffe33bd6339911ea8b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 24/78] fix: to_pandas of a union of records and non-records
 read outside the placeholder array

---
 src/awkward/_util.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index e5dea7a..e6d9933 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -1746,10 +1746,12 @@ def union_to_record(unionarray, anonymous):
                     seen.add(anonymous)
                     all_names.append(anonymous)
 
-        missingarray = ak.layout.IndexedOptionArray64(
-            ak.layout.Index64(nplike.full(len(unionarray), -1, dtype=np.int64)),
-            ak.layout.EmptyArray(),
-        )
+        # the union's index refers to positions in the content it replaces
+        def missingarray(length):
+            return ak.layout.IndexedOptionArray64(
+                ak.layout.Index64(nplike.full(length, -1, dtype=np.int64)),
+                ak.layout.EmptyArray(),
+            )
 
         all_fields = []
         for name in all_names:
@@ -1761,12 +1763,12 @@ def union_to_record(unionarray, anonymous):
                             union_contents.append(layout.field(key))
                             break
                     else:
-                        union_contents.append(missingarray)
+                        union_contents.append(missingarray(len(layout)))
                 else:
                     if name == anonymous:
                         union_contents.append(layout)
                     else:
-                        union_contents.append(missingarray)
+                        union_contents.append(missingarray(len(layout)))
 
             all_fields.append(
                 make_union(
-- 
2.43.0


From 10f91c58cba45dcce9d719a653a6f19462a81792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 25/78] fix: to_arrow of strings with non-contiguous characters
 read outside the buffer

---
 src/awkward/operations/convert.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c1f2913..47145d3 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2068,7 +2068,7 @@ def to_arrow(
                         [
                             None,
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2079,7 +2079,7 @@ def to_arrow(
                         [
                             pyarrow.py_buffer(mask),
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2090,13 +2090,13 @@ def to_arrow(
                     arrow_arr = pyarrow.StringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                     )
                 else:
                     arrow_arr = pyarrow.StringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         pyarrow.py_buffer(mask),
                     )
                 return arrow_arr
@@ -2154,7 +2154,7 @@ def to_arrow(
                         [
                             None,
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2165,7 +2165,7 @@ def to_arrow(
                         [
                             pyarrow.py_buffer(mask),
                             pyarrow.py_buffer(offsets),
-                            pyarrow.py_buffer(layout.content),
+                            pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         ],
                         children=[],
                     )
@@ -2176,13 +2176,13 @@ def to_arrow(
                     arrow_arr = pyarrow.LargeStringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                     )
                 else:
                     arrow_arr = pyarrow.LargeStringArray.from_buffers(
                         len(offsets) - 1,
                         pyarrow.py_buffer(offsets),
-                        pyarrow.py_buffer(layout.content),
+                        pyarrow.py_buffer(numpy.ascontiguousarray(layout.content)),
                         pyarrow.py_buffer(mask),
                     )
                 return arrow_arr
-- 
2.43.0


From 367460ad8253c425171fd1a294f4b6bf0e32c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 26/78] fix: merging RecordArrays took elements beyond the
 length of the records and lost the length of records without fields

---
 src/libawkward/array/RecordArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 5f00fbb..e4dec9a 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1274,7 +1274,7 @@ namespace awkward {
     std::vector<ContentPtrVec> for_each_field;
     for (auto field : contents_) {
       ContentPtr trimmed = field.get()->getitem_range_nowrap(0, length_);
-      for_each_field.push_back(ContentPtrVec({ field }));
+      for_each_field.push_back(ContentPtrVec({ trimmed }));
     }
 
     if (istuple()) {
@@ -1361,6 +1361,12 @@ namespace awkward {
 
     ContentPtrVec nextcontents;
     int64_t minlength = -1;
+    if (contents_.empty()) {
+      minlength = 0;
+      for (auto array : head) {
+        minlength += array.get()->length();
+      }
+    }
     for (auto forfield : for_each_field) {
       ContentPtrVec tail_forfield(forfield.begin() + 1, forfield.end());
       ContentPtr merged = forfield[0].get()->mergemany(tail_forfield);
-- 
2.43.0


From 0e33b4925afdebd25f2f923d5a2d052411231290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 27/78] fix: merging an IndexedOptionArray with IndexedArrays
 dropped its missing values; merging after a 64-bit index wrote the 32-bit one

---
 src/libawkward/array/IndexedArray.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 1922751..8859011 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1771,7 +1771,7 @@ namespace awkward {
         theirlength);
       util::handle_error(err2, classname(), identities_.get());
     }
-    if (std::is_same<T, int64_t>::value) {
+    else if (std::is_same<T, int64_t>::value) {
       struct Error err2 = kernel::IndexedArray_fill<int64_t, int64_t>(
         kernel::lib::cpu,   // DERIVE
         index.data(),
@@ -1872,7 +1872,6 @@ namespace awkward {
       }
 
       if (IndexedArray32* raw = dynamic_cast<IndexedArray32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(
@@ -1887,7 +1886,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArrayU32* raw = dynamic_cast<IndexedArrayU32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         IndexU32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<uint32_t, int64_t>(
@@ -1902,7 +1900,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArray64* raw = dynamic_cast<IndexedArray64*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index64 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int64_t, int64_t>(
-- 
2.43.0


From 1a90c9a6652487332ecd5522a4e8a78eddace76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 28/78] fix: to_json of strings over strided characters wrote
 the wrong characters

---
 src/libawkward/array/NumpyArray.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 2b002c9..e42871a 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5021,7 +5021,8 @@ namespace awkward {
       builder.string(array, 1);
     }
     else if (ndim() == 1) {
-      char* array = reinterpret_cast<char*>(data());
+      NumpyArray contiguous_self = contiguous();
+      char* array = reinterpret_cast<char*>(contiguous_self.data());
       builder.string(array, length());
     }
     else {
-- 
2.43.0


From fb0764a46edebb768252948e483816395190fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 29/78] fix: num below a list with offsets not starting at zero
 returned the numbers of other lists

---
 src/libawkward/array/ListOffsetArray.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 2dcfb9f..e83afec 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -966,8 +966,10 @@ namespace awkward {
       return std::make_shared<NumpyArray>(tonum);
     }
     else {
-      ContentPtr next = content_.get()->num(posaxis, depth + 1);
       Index64 offsets = compact_offsets64(true);
+      int64_t start = (int64_t)offsets_.getitem_at_nowrap(0);
+      int64_t stop = start + offsets.getitem_at_nowrap(offsets.length() - 1);
+      ContentPtr next = content_.get()->getitem_range_nowrap(start, stop).get()->num(posaxis, depth + 1);
       return std::make_shared<ListOffsetArray64>(Identities::none(),
                                                  util::Parameters(),
                                                  offsets,
-- 
2.43.0


From 87c0c116cdf890e61fa196de563cff5590195ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 30/78] fix: pad_none with clip did not clip an UnmaskedArray

---
 src/libawkward/array/UnmaskedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index 587b36b..3073efd 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -883,7 +883,7 @@ namespace awkward {
                                int64_t depth) const {
     int64_t posaxis = axis_wrap_if_negative(axis);
     if (posaxis == depth) {
-      return rpad_axis0(target, false);
+      return rpad_axis0(target, true);
     }
     else if (posaxis == depth + 1) {
       return content_.get()->rpad_and_clip(target, posaxis, depth);
-- 
2.43.0


From 2bc2ea969e6d3a1d1d0fd66ab9e1e9a6663a9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 31/78] fix: flattening everything and broadcasting used
 unreachable elements, zero-size lists lost their length

---
 src/awkward/_util.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index e6d9933..10284a5 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -498,7 +498,7 @@ def completely_flatten(array):
     elif isinstance(array, recordtypes):
         out = []
         for i in range(array.numfields):
-            out.extend(completely_flatten(array.field(i)))
+            out.extend(completely_flatten(array.field(i)[: len(array)]))
         return tuple(out)
 
     elif isinstance(array, ak.layout.NumpyArray):
@@ -583,10 +583,7 @@ def broadcast_and_apply(  # noqa: C901
                 ):
                     return False
             elif isinstance(x, ak.layout.RegularArray):
-                if x.size == 0:
-                    my_offsets = nplike.empty(0, dtype=np.int64)
-                else:
-                    my_offsets = nplike.arange(0, len(x.content), x.size)
+                my_offsets = nplike.arange(0, len(x) + 1) * x.size
                 if offsets is None:
                     offsets = my_offsets
                 elif not nplike.array_equal(offsets, my_offsets):
@@ -594,7 +591,8 @@ def broadcast_and_apply(  # noqa: C901
             elif isinstance(x, ak.layout.Content):
                 return False
         else:
-            return True
+            # unreachable elements before the first list must not be broadcasted
+            return offsets is None or offsets[0] == 0
 
     def apply(inputs, depth, user):
         nplike = ak.nplike.of(*inputs)
@@ -826,14 +824,14 @@ def broadcast_and_apply(  # noqa: C901
                     else:
                         nextinputs.append(x)
 
-                maxlen = max(
-                    [len(x) for x in nextinputs if isinstance(x, ak.layout.Content)]
+                length = max(
+                    [len(x) for x in inputs if isinstance(x, ak.layout.Content)]
                 )
                 outcontent = apply(nextinputs, depth + 1, user)
                 assert isinstance(outcontent, tuple)
 
                 return tuple(
-                    ak.layout.RegularArray(x, maxsize, maxlen) for x in outcontent
+                    ak.layout.RegularArray(x, maxsize, length) for x in outcontent
                 )
 
             elif not all_same_offsets(nplike, inputs):
@@ -920,6 +918,9 @@ def broadcast_and_apply(  # noqa: C901
                             lencontent = nplike.max(stops)
                             nextinputs.append(x.content[:lencontent])
 
+                    elif isinstance(x, ak.layout.RegularArray):
+                        nextinputs.append(x.content[: len(x) * x.size])
+
                     else:
                         nextinputs.append(x)
 
-- 
2.43.0


From 04980558796f7074fa4e2c24d176bf2d1be07fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 32/78] fix: ufuncs on regular lists over too long content, and
 on multidimensional data below options, failed or paired wrong elements

---
 src/awkward/_connect/_numpy.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/awkward/_connect/_numpy.py b/src/awkward/_connect/_numpy.py
index 7ac0a3c..19e5c4a 100644
--- a/src/awkward/_connect/_numpy.py
+++ b/src/awkward/_connect/_numpy.py
@@ -114,7 +114,7 @@ def array_ufunc(ufunc, method, inputs, kwargs):
             node = layout
             while isinstance(node, ak.layout.RegularArray):
                 shape.append(node.size)
-                node = node.content
+                node = node.content[: len(node) * node.size]
             if node.format.upper().startswith("M"):
                 nparray = ak.nplike.of(node).asarray(node.view_int64).view(node.format)
                 nparray = nparray.reshape(tuple(shape) + nparray.shape[1:])
@@ -168,6 +168,17 @@ def array_ufunc(ufunc, method, inputs, kwargs):
 
         inputs = [deregulate(x) for x in inputs]
 
+        if (
+            len(set(x.ndim for x in inputs if isinstance(x, ak.layout.NumpyArray))) > 1
+            and all(
+                isinstance(x, ak.layout.NumpyArray)
+                or not isinstance(x, (ak.layout.Content, ak.partition.PartitionedArray))
+                for x in inputs
+            )
+        ):
+            # nested in an irregular array: broadcast to the left, unlike NumPy
+            return None
+
         if all(
             (
                 isinstance(x, ak.layout.NumpyArray)
-- 
2.43.0


From 863ec11ed4e73e5fc3f2347d1832e89fb7bf1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 33/78] fix: conversions (NumPy, buffers, Arrow, pandas) used
 unreachable elements, strided data or lost zero-size dimensions

---
 src/awkward/operations/convert.py | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 47145d3..c453415 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -246,7 +246,7 @@ def to_numpy(array, allow_missing=True):
             return numpy.concatenate(tocat)
 
     elif isinstance(array, ak._util.virtualtypes):
-        return to_numpy(array.array, allow_missing=True)
+        return to_numpy(array.array, allow_missing=allow_missing)
 
     elif isinstance(array, ak._util.unknowntypes):
         return numpy.array([])
@@ -324,11 +324,7 @@ def to_numpy(array, allow_missing=True):
 
     elif isinstance(array, ak.layout.RegularArray):
         out = to_numpy(array.content, allow_missing=allow_missing)
-        head, tail = out.shape[0], out.shape[1:]
-        if array.size == 0:
-            shape = (0, 0) + tail
-        else:
-            shape = (head // array.size, array.size) + tail
+        shape = (len(array), array.size) + out.shape[1:]
         return out[: shape[0] * array.size].reshape(shape)
 
     elif isinstance(array, ak._util.listtypes):
@@ -338,7 +334,7 @@ def to_numpy(array, allow_missing=True):
         if array.numfields == 0:
             return numpy.empty(len(array), dtype=[])
         contents = [
-            to_numpy(array.field(i), allow_missing=allow_missing)
+            to_numpy(array.field(i)[: len(array)], allow_missing=allow_missing)
             for i in range(array.numfields)
         ]
         if any(len(x.shape) != 1 for x in contents):
@@ -2009,7 +2005,7 @@ def to_arrow(
 
     def recurse(layout, mask, is_option):
         if isinstance(layout, ak.layout.NumpyArray):
-            numpy_arr = numpy.asarray(layout)
+            numpy_arr = numpy.ascontiguousarray(layout)
             length = len(numpy_arr)
             arrow_type = pyarrow.from_numpy_dtype(numpy_arr.dtype)
 
@@ -4163,7 +4159,9 @@ def to_buffers(
     num_form_keys = [0]
 
     def little_endian(array):
-        return array.astype(array.dtype.newbyteorder("<"), copy=False)
+        return numpy.ascontiguousarray(
+            array.astype(array.dtype.newbyteorder("<"), copy=False)
+        )
 
     def fill(layout, part):
         has_identities = layout.identities is not None
@@ -4540,6 +4538,8 @@ def _form_to_layout(
                 )
                 + ak._util.exception_suffix(__file__)
             )
+        elif length < len(mask):
+            mask = mask[:length]
 
         content = _form_to_layout(
             form.content,
@@ -4678,7 +4678,7 @@ def _form_to_layout(
         )
 
         return _form_to_layout_class[type(form), form.starts](
-            starts, stops, content, identities, parameters
+            starts[:length], stops[:length], content, identities, parameters
         )
 
     elif isinstance(form, ak.forms.ListOffsetForm):
@@ -4724,15 +4724,18 @@ def _form_to_layout(
             dtype, inner_shape = dtype_inner_shape.subdtype
 
         if length is not None:
-            actual = len(raw_array) // dtype_inner_shape.itemsize
-            if length > actual:
+            actual = len(raw_array) // max(dtype_inner_shape.itemsize, 1)
+            if length > actual and dtype_inner_shape.itemsize != 0:
                 raise ValueError(
                     "buffer is too short for NumpyArray: expected {0}, buffer "
                     "has {1} items ({2} bytes)".format(length, actual, len(raw_array))
                     + ak._util.exception_suffix(__file__)
                 )
 
-        array = raw_array.view(dtype).reshape((-1,) + inner_shape)
+        if dtype_inner_shape.itemsize == 0:
+            array = numpy.empty((0 if length is None else length,) + inner_shape, dtype)
+        else:
+            array = raw_array.view(dtype).reshape((-1,) + inner_shape)
 
         return ak.layout.NumpyArray(array, identities, parameters)
 
@@ -4850,7 +4853,7 @@ def _form_to_layout(
             )
 
         return _form_to_layout_class[type(form), form.index](
-            tags, index, contents, identities, parameters
+            tags[:length], index[:length], contents, identities, parameters
         )
 
     elif isinstance(form, ak.forms.UnmaskedForm):
@@ -5290,7 +5293,7 @@ or
         elif isinstance(layout, ak.layout.RecordArray):
             return sum(
                 [
-                    recurse(layout.field(n), row_arrays, col_names + (n,))
+                    recurse(layout[n], row_arrays, col_names + (n,))
                     for n in layout.keys()
                 ],
                 [],
-- 
2.43.0


From 28df22a7718db6392ad133282f00c03fd4995103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 34/78] fix: packed lost parameters and failed on masked
 records; run_lengths split runs after empty lists; is_none, unflatten and
 broadcast_arrays ignored multidimensional data

---
 src/awkward/operations/structure.py | 52 +++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 195463b..2727324 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -349,7 +349,8 @@ def run_lengths(array, highlevel=True, behavior=None):
             if isinstance(diffs, ak.highlevel.Array):
                 diffs = nplike.asarray(diffs)
             if offsets is not None:
-                diffs[offsets[1:-1] - 1] = True
+                boundaries = offsets[(offsets > 0) & (offsets < len(data))]
+                diffs[boundaries - 1] = True
             positions = nplike.nonzero(diffs)[0]
             full_positions = nplike.empty(len(positions) + 2, np.int64)
             full_positions[0] = 0
@@ -453,6 +454,7 @@ def run_lengths(array, highlevel=True, behavior=None):
                 getfunction,
                 pass_depth=False,
                 pass_user=False,
+                numpy_to_regular=True,
             )
         else:
             outparts = []
@@ -463,6 +465,7 @@ def run_lengths(array, highlevel=True, behavior=None):
                         getfunction,
                         pass_depth=False,
                         pass_user=False,
+                        numpy_to_regular=True,
                     )
                 )
             out = ak.partition.IrregularlyPartitionedArray(outparts)
@@ -472,6 +475,7 @@ def run_lengths(array, highlevel=True, behavior=None):
             getfunction,
             pass_depth=False,
             pass_user=False,
+            numpy_to_regular=True,
         )
 
     if highlevel:
@@ -1403,7 +1407,10 @@ def broadcast_arrays(*arrays, **kwargs):
         inputs.append(y)
 
     def getfunction(inputs):
-        if all(isinstance(x, ak.layout.NumpyArray) for x in inputs):
+        if (
+            all(isinstance(x, ak.layout.NumpyArray) for x in inputs)
+            and len(set(x.ndim for x in inputs)) == 1
+        ):
             return lambda: tuple(inputs)
         else:
             return None
@@ -2135,6 +2142,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                         pass_depth=True,
                         pass_user=True,
                         user=axis,
+                        numpy_to_regular=True,
                     )
                 )
             out = ak.partition.IrregularlyPartitionedArray(outparts)
@@ -2145,6 +2153,7 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                 pass_depth=True,
                 pass_user=True,
                 user=axis,
+                numpy_to_regular=True,
             )
 
     if current_offsets is not None and not (
@@ -2198,7 +2207,10 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             new_index[~is_none] = nplike.arange(len(new_index) - nplike.sum(is_none))
 
             return ak.layout.IndexedOptionArray64(
-                ak.layout.Index64(new_index), apply(layout.project(), depth, posaxis)
+                ak.layout.Index64(new_index),
+                apply(layout.project(), depth, posaxis),
+                layout.identities,
+                layout.parameters,
             )
 
         # Project indexed arrays
@@ -2236,7 +2248,11 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # UnmaskedArray just wraps another array
         elif isinstance(layout, ak.layout.UnmaskedArray):
-            return ak.layout.UnmaskedArray(apply(layout.content, depth, posaxis))
+            return ak.layout.UnmaskedArray(
+                apply(layout.content, depth, posaxis),
+                layout.identities,
+                layout.parameters,
+            )
 
         # UnionArrays can be simplified
         # and their contents too
@@ -2289,14 +2305,15 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
             content = layout.content
 
-            # Truncate content if it is larger than a perfect
-            # multiple of the RegularArray size
-            n, r = divmod(len(content), layout.size)
-            if r != 0:
-                content = truncate(content, n * layout.size)
+            # Truncate content if it is larger than the lists need
+            content = truncate(content, len(layout) * layout.size)
 
             return ak.layout.RegularArray(
-                apply(content, depth + 1, posaxis), layout.size
+                apply(content, depth + 1, posaxis),
+                layout.size,
+                len(layout),
+                layout.identities,
+                layout.parameters,
             )
 
         # BitMaskedArrays can change length
@@ -2304,7 +2321,9 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             layout = layout.simplify()
 
             if not isinstance(ak.type(layout.content), ak.types.PrimitiveType):
-                return apply(layout.toIndexedOptionArray64(), depth, posaxis)
+                if isinstance(layout, ak.layout.BitMaskedArray):
+                    layout = layout.toIndexedOptionArray64()
+                return apply(layout, depth, posaxis)
 
             return ak.layout.BitMaskedArray(
                 layout.mask,
@@ -2321,7 +2340,9 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             layout = layout.simplify()
 
             if not isinstance(ak.type(layout.content), ak.types.PrimitiveType):
-                return apply(layout.toIndexedOptionArray64(), depth, posaxis)
+                if isinstance(layout, ak.layout.ByteMaskedArray):
+                    layout = layout.toIndexedOptionArray64()
+                return apply(layout, depth, posaxis)
 
             return ak.layout.ByteMaskedArray(
                 layout.mask,
@@ -2824,7 +2845,12 @@ def is_none(array, axis=0, highlevel=True, behavior=None):
     layout = ak.operations.convert.to_layout(array)
 
     out = ak._util.recursively_apply(
-        layout, getfunction, pass_depth=True, pass_user=True, user=axis
+        layout,
+        getfunction,
+        pass_depth=True,
+        pass_user=True,
+        user=axis,
+        numpy_to_regular=True,
     )
 
     if highlevel:
-- 
2.43.0


From 40ac7c7185295f05298617a2f8b64af6a8335e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:28 +0000
Subject: [PATCH 35/78] fix: to_categorical failed on negative indexes and too
 long masked content

---
 src/awkward/behaviors/categorical.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index 85c7ec3..c5a6985 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -248,7 +248,7 @@ def to_categorical(array, highlevel=True):
                 content = layout.content
                 cls = ak.layout.IndexedArray64
             elif isinstance(layout, ak._util.optiontypes):
-                content = layout.content
+                content = layout.content[: len(layout)]
                 cls = ak.layout.IndexedOptionArray64
             else:
                 content = layout
@@ -271,8 +271,9 @@ def to_categorical(array, highlevel=True):
 
             if isinstance(layout, ak._util.indexedoptiontypes):
                 original_index = ak.nplike.numpy.asarray(layout.index)
-                index = mapping[original_index]
-                index[original_index < 0] = -1
+                is_valid = original_index >= 0
+                index = ak.nplike.numpy.full(len(original_index), -1, dtype=np.int64)
+                index[is_valid] = mapping[original_index[is_valid]]
                 index = ak.layout.Index64(index)
 
             elif isinstance(layout, ak._util.indexedtypes):
-- 
2.43.0


From 9bf51c3d7ccba2ae5d2b94022a8b7e4f3a7212d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 36/78] fix: lazy nodes are materialised before deciding how to
 merge them (a lazy option or union was merged as plain data)

---
 src/libawkward/Content.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index d7b25a8..dc3e9ad 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,6 +941,9 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
           dynamic_cast<IndexedArrayU32*>(other.get())  ||
           dynamic_cast<IndexedArray64*>(other.get())  ||
@@ -954,9 +957,6 @@ namespace awkward {
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -964,6 +964,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
-- 
2.43.0


From 719777b82174e91b392f113b9b1d80bc673b0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 37/78] fix: a lazy slice of nodes whose encoding changes when
 sliced no longer raises, and a generated array is cut to its declared length

---
 include/awkward/virtual/ArrayGenerator.h  | 11 +++++++++++
 src/libawkward/virtual/ArrayGenerator.cpp | 22 ++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/awkward/virtual/ArrayGenerator.h b/include/awkward/virtual/ArrayGenerator.h
index 86fc76e..84b83a9 100644
--- a/include/awkward/virtual/ArrayGenerator.h
+++ b/include/awkward/virtual/ArrayGenerator.h
@@ -59,6 +59,11 @@ namespace awkward {
     const ContentPtr
       generate_and_check();
 
+    /// @brief Returns `true` if an array with the `generated` Form satisfies
+    /// the expected #form.
+    virtual bool
+      conforms(const FormPtr& generated) const;
+
     /// @brief Accumulates all the unique #ArrayCache objects from nested
     /// #VirtualArray nodes. (Uniqueness is determined by pointer value.)
     virtual void
@@ -120,6 +125,12 @@ namespace awkward {
     const ContentPtr
       generate() const override;
 
+    /// @brief Slicing may change the encoding of nested nodes (for example,
+    /// BitMaskedArray becomes ByteMaskedArray), so only the types have to
+    /// agree.
+    bool
+      conforms(const FormPtr& generated) const override;
+
     void
       caches(std::vector<ArrayCachePtr>& out) const override;
 
diff --git a/src/libawkward/virtual/ArrayGenerator.cpp b/src/libawkward/virtual/ArrayGenerator.cpp
index eedb888..c2577aa 100644
--- a/src/libawkward/virtual/ArrayGenerator.cpp
+++ b/src/libawkward/virtual/ArrayGenerator.cpp
@@ -5,6 +5,7 @@
 #include "sstream"
 
 #include "awkward/array/VirtualArray.h"
+#include "awkward/type/Type.h"
 
 #include "awkward/virtual/ArrayGenerator.h"
 
@@ -38,8 +39,7 @@ namespace awkward {
           std::to_string(length_) + std::string(" but generated ") +
           std::to_string(out.get()->length()) + FILENAME(__LINE__));
     }
-    if (form_.get() != nullptr  &&
-        !form_.get()->equal(out.get()->form(true), true, true, false, true)) {
+    if (form_.get() != nullptr  &&  !conforms(out.get()->form(true))) {
       throw std::invalid_argument(
           std::string("generated array does not conform to expected form:\n\n")
           + form_.get()->tostring() + std::string("\n\nbut generated:\n\n")
@@ -48,9 +48,17 @@ namespace awkward {
     if (form_.get() == nullptr) {
       inferred_form_ = out.get()->form(true);
     }
+    if (length_ >= 0  &&  length_ < out.get()->length()) {
+      return out.get()->getitem_range_nowrap(0, length_);
+    }
     return out;
   }
 
+  bool
+  ArrayGenerator::conforms(const FormPtr& generated) const {
+    return form_.get()->equal(generated, true, true, false, true);
+  }
+
   SliceGenerator::SliceGenerator(const FormPtr& form,
                                  int64_t length,
                                  const ContentPtr& content,
@@ -92,6 +100,16 @@ namespace awkward {
     }
   }
 
+  bool
+  SliceGenerator::conforms(const FormPtr& generated) const {
+    if (form_.get()->equal(generated, true, true, false, true)) {
+      return true;
+    }
+    util::TypeStrs typestrs;
+    return form_.get()->type(typestrs).get()->equal(
+      generated.get()->type(typestrs), true);
+  }
+
   void
   SliceGenerator::caches(std::vector<ArrayCachePtr>& out) const {
     content_.get()->caches(out);
-- 
2.43.0


From 34a32fc6b02ccabf3637291c29bbc986c65c1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 38/78] fix: partitioned arrays: empty range slices keep their
 list level, from partitions: ellipsis, to_json, partition_as, array heads
 with array tails

---
 src/awkward/partition.py                      | 35 +++++++++++++------
 src/libawkward/partition/PartitionedArray.cpp |  2 +-
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index c1293ca..d00d3fc 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -43,9 +43,13 @@ def partition_as(sample, arrays):
         for n, x in arrays.items():
             if isinstance(x, PartitionedArray):
                 out[n] = x.repartition(stops)
-            elif isinstance(x, ak.layout.Content) and (
-                x.parameter("__array__") == "string"
-                or x.parameter("__array__") == "bytestring"
+            elif (
+                isinstance(x, ak.layout.Content)
+                and (
+                    x.parameter("__array__") == "string"
+                    or x.parameter("__array__") == "bytestring"
+                )
+                and len(x) != stops[-1]
             ):
                 out[n] = x
             elif isinstance(x, ak.layout.Content):
@@ -58,9 +62,13 @@ def partition_as(sample, arrays):
         for x in arrays:
             if isinstance(x, PartitionedArray):
                 out.append(x.repartition(stops))
-            elif isinstance(x, ak.layout.Content) and (
-                x.parameter("__array__") == "string"
-                or x.parameter("__array__") == "bytestring"
+            elif (
+                isinstance(x, ak.layout.Content)
+                and (
+                    x.parameter("__array__") == "string"
+                    or x.parameter("__array__") == "bytestring"
+                )
+                and len(x) != stops[-1]
             ):
                 out.append(x)
             elif isinstance(x, ak.layout.Content):
@@ -283,9 +291,8 @@ class PartitionedArray(object):
                 )
 
             elif head is Ellipsis:
-                return IrregularlyPartitionedArray(
-                    [x[(head,) + tail] for x in self.partitions]
-                )
+                # the tail may reach the dimension that is partitioned
+                return self.toContent()[(head,) + tail]
 
             elif isinstance(head, str) or (
                 ak._util.py27 and isinstance(head, ak._util.unicode)
@@ -351,6 +358,14 @@ class PartitionedArray(object):
                         and isinstance(t.type, ak.types.UnionType)
                         and all(ti in int_types for ti in t.type.types)
                     )
+                    or any(
+                        isinstance(x, (Iterable, PartitionedArray))
+                        and not isinstance(x, (str, bytes, tuple))
+                        and not (
+                            isinstance(x, list) and all(isinstance(y, str) for y in x)
+                        )
+                        for x in tail
+                    )
                 ):
                     if isinstance(layout, PartitionedArray):
                         layout = layout.toContent()
@@ -396,7 +411,7 @@ class PartitionedArray(object):
         return list(ak._util.find_caches(self))
 
     def tojson(self, *args, **kwargs):
-        return self._ext.tojson(*args, **kwargs)
+        return self.toContent().tojson(*args, **kwargs)
 
     @property
     def nbytes(self):
diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index b1875e9..e3456cd 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -254,7 +254,7 @@ namespace awkward {
     }
 
     if (partitions.empty()) {
-      partitions.push_back(partitions_[0].get()->getitem_nothing());
+      partitions.push_back(partitions_[0].get()->getitem_range_nowrap(0, 0));
       stops.push_back(0);
     }
     return std::make_shared<IrregularlyPartitionedArray>(partitions, stops);
-- 
2.43.0


From e4c0c94160f4ee1845bab4d4725197349da82e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 39/78] fix: with_parameter and with_field of partitioned and
 nested records; with_field no longer ignores where for one-field records

---
 src/awkward/operations/structure.py | 72 +++++++++++++----------------
 1 file changed, 33 insertions(+), 39 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 2727324..8304b90 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -953,47 +953,41 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
         if where in base.keys():
             keys.remove(where)
 
-        if len(keys) == 0:
-            # the only key was removed, so just create new Record
-            out = (ak.layout.RecordArray([what], [where], parameters=base.parameters),)
-
-        else:
-
-            def getfunction(inputs):
-                nplike = ak.nplike.of(*inputs)
-                base, what = inputs
-                if isinstance(base, ak.layout.RecordArray):
-                    if what is None:
-                        what = ak.layout.IndexedOptionArray64(
-                            ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
-                            ak.layout.EmptyArray(),
-                        )
-                    elif not isinstance(what, ak.layout.Content):
-                        what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
-                    if base.istuple and where is None:
-                        recordlookup = None
-                    elif base.istuple:
-                        recordlookup = keys + [where]
-                    elif where is None:
-                        recordlookup = keys + [str(len(keys))]
-                    else:
-                        recordlookup = keys + [where]
-                    out = ak.layout.RecordArray(
-                        [base[k] for k in keys] + [what],
-                        recordlookup,
-                        parameters=base.parameters,
+        def getfunction(inputs):
+            nplike = ak.nplike.of(*inputs)
+            base, what = inputs
+            if isinstance(base, ak.layout.RecordArray):
+                if what is None:
+                    what = ak.layout.IndexedOptionArray64(
+                        ak.layout.Index64(nplike.full(len(base), -1, np.int64)),
+                        ak.layout.EmptyArray(),
                     )
-                    return lambda: (out,)
+                elif not isinstance(what, ak.layout.Content):
+                    what = ak.layout.NumpyArray(nplike.repeat(what, len(base)))
+                if base.istuple and where is None:
+                    recordlookup = None
+                elif base.istuple:
+                    recordlookup = keys + [where]
+                elif where is None:
+                    recordlookup = keys + [str(len(keys))]
                 else:
-                    return None
+                    recordlookup = keys + [where]
+                out = ak.layout.RecordArray(
+                    [base[k] for k in keys] + [what],
+                    recordlookup,
+                    parameters=base.parameters,
+                )
+                return lambda: (out,)
+            else:
+                return None
 
-            out = ak._util.broadcast_and_apply(
-                [base, what],
-                getfunction,
-                behavior,
-                right_broadcast=False,
-                pass_depth=False,
-            )
+        out = ak._util.broadcast_and_apply(
+            [base, what],
+            getfunction,
+            behavior,
+            right_broadcast=False,
+            pass_depth=False,
+        )
 
         assert isinstance(out, tuple) and len(out) == 1
 
@@ -1029,7 +1023,7 @@ def with_parameter(array, parameter, value, highlevel=True, behavior=None):
 
     if isinstance(layout, ak.partition.PartitionedArray):
         out = layout.replace_partitions(
-            x.withparameter(parameter, value) for x in layout.partitions
+            [x.withparameter(parameter, value) for x in layout.partitions]
         )
     else:
         out = layout.withparameter(parameter, value)
-- 
2.43.0


From 266bbad15f0035c3f338c9c7faa624339d3be5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 40/78] fix: to_categorical of partitioned arrays

---
 src/awkward/behaviors/categorical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index c5a6985..892f4ab 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -297,6 +297,9 @@ def to_categorical(array, highlevel=True):
     layout = ak.operations.convert.to_layout(
         array, allow_record=False, allow_other=False
     )
+    if isinstance(layout, ak.partition.PartitionedArray):
+        # all partitions share one set of categories
+        layout = layout.toContent()
     out = ak._util.recursively_apply(layout, getfunction, pass_depth=False)
     if highlevel:
         return ak._util.wrap(out, ak._util.behaviorof(array))
-- 
2.43.0


From 7c204df12abd87c6493b31ebfc0d9fcfd4b039d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 41/78] fix: argmin/argmax/min/max with axis=None over
 partitions treat NaN and empty arrays as without partitions

---
 src/awkward/operations/reducers.py | 32 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/awkward/operations/reducers.py b/src/awkward/operations/reducers.py
index 30c6060..5cdb8fe 100644
--- a/src/awkward/operations/reducers.py
+++ b/src/awkward/operations/reducers.py
@@ -545,7 +545,7 @@ def min(array, axis=None, keepdims=False, initial=None, mask_identity=True):
                 return xs[0]
             else:
                 x, y = xs[0], reduce(xs[1:])
-                return x if x < y else y
+                return x if x < y or x != x else y
 
         tmp = ak._util.completely_flatten(layout)
         return reduce([ak.nplike.of(x).min(x) for x in tmp if len(x) > 0])
@@ -606,7 +606,7 @@ def max(array, axis=None, keepdims=False, initial=None, mask_identity=True):
                 return xs[0]
             else:
                 x, y = xs[0], reduce(xs[1:])
-                return x if x > y else y
+                return x if x > y or x != x else y
 
         tmp = ak._util.completely_flatten(layout)
         return reduce([ak.nplike.of(x).max(x) for x in tmp if len(x) > 0])
@@ -719,7 +719,10 @@ def argmin(array, axis=None, keepdims=False, mask_identity=True):
                 for tmp in ak._util.completely_flatten(partition):
                     if len(tmp) != 0:
                         out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                        if best_index is None or tmp[out] < best_value:
+                        # the first NaN counts as the extreme value, as in NumPy
+                        if best_index is None or (
+                            best_value == best_value and not tmp[out] >= best_value
+                        ):
                             best_index = start + out
                             best_value = tmp[out]
                         start += len(tmp)
@@ -729,10 +732,11 @@ def argmin(array, axis=None, keepdims=False, mask_identity=True):
             best_index = None
             best_value = None
             for tmp in ak._util.completely_flatten(layout):
-                out = ak.nplike.of(tmp).argmin(tmp, axis=None)
-                if best_index is None or tmp[out] < best_value:
-                    best_index = out
-                    best_value = tmp[out]
+                if len(tmp) != 0:
+                    out = ak.nplike.of(tmp).argmin(tmp, axis=None)
+                    if best_index is None or tmp[out] < best_value:
+                        best_index = out
+                        best_value = tmp[out]
             return best_index
 
     else:
@@ -790,7 +794,10 @@ def argmax(array, axis=None, keepdims=False, mask_identity=True):
                 for tmp in ak._util.completely_flatten(partition):
                     if len(tmp) != 0:
                         out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                        if best_index is None or tmp[out] > best_value:
+                        # the first NaN counts as the extreme value, as in NumPy
+                        if best_index is None or (
+                            best_value == best_value and not tmp[out] <= best_value
+                        ):
                             best_index = start + out
                             best_value = tmp[out]
                         start += len(tmp)
@@ -800,10 +807,11 @@ def argmax(array, axis=None, keepdims=False, mask_identity=True):
             best_index = None
             best_value = None
             for tmp in ak._util.completely_flatten(layout):
-                out = ak.nplike.of(tmp).argmax(tmp, axis=None)
-                if best_index is None or tmp[out] > best_value:
-                    best_index = out
-                    best_value = tmp[out]
+                if len(tmp) != 0:
+                    out = ak.nplike.of(tmp).argmax(tmp, axis=None)
+                    if best_index is None or tmp[out] > best_value:
+                        best_index = out
+                        best_value = tmp[out]
             return best_index
 
     else:
-- 
2.43.0


From 200495cb2b3571444647d9dcf6860ceeb863bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:52 +0000
Subject: [PATCH 42/78] fix: from_buffers(lazy=True) of tuples, to_arrow of
 lazy optional content, from_arrow of only empty chunks

---
 src/awkward/operations/convert.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c453415..c9a15da 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2478,7 +2478,7 @@ def to_arrow(
             return recurse(layout.content, None, True)
 
         elif isinstance(layout, (ak.layout.VirtualArray)):
-            return recurse(layout.array, None, False)
+            return recurse(layout.array, mask, is_option)
 
         elif isinstance(layout, (ak.partition.PartitionedArray)):
             return pyarrow.chunked_array(
@@ -2869,7 +2869,13 @@ def _from_arrow(
             layouts = [handle_arrow(x) for x in obj.chunks if len(x) > 0]
             if all(isinstance(x, ak.layout.UnmaskedArray) for x in layouts):
                 layouts = [x.content for x in layouts]
-            if len(layouts) == 1:
+            if len(layouts) == 0:
+                # zero-length array with the right type
+                if obj.num_chunks > 0:
+                    return handle_arrow(obj.chunk(0))
+                else:
+                    return handle_arrow(pyarrow.array([], obj.type))
+            elif len(layouts) == 1:
                 return layouts[0]
             else:
                 return ak.operations.structure.concatenate(layouts, highlevel=False)
@@ -4924,17 +4930,21 @@ def _from_buffers_key():
 
 def _wrap_record_with_virtual(input_form):
     def modify(form):
-        if form["class"] == "RecordArray":
+        if form["class"] == "RecordArray" and isinstance(form["contents"], dict):
             for item in form["contents"].values():
                 modify(item)
-        elif form["class"].startswith("UnionArray"):
+        elif "contents" in form:
             for item in form["contents"]:
                 modify(item)
         elif "content" in form:
             modify(form["content"])
 
         if form["class"] == "RecordArray":
-            for key in form["contents"].keys():
+            if isinstance(form["contents"], dict):
+                keys = list(form["contents"])
+            else:
+                keys = range(len(form["contents"]))
+            for key in keys:
                 form["contents"][key] = {
                     "class": "VirtualArray",
                     "has_length": True,
-- 
2.43.0


From 188a339e31cc7cf9f213417b9fd351f53f9bc3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 43/78] fix: UnmaskedArray of an IndexedArray kept its option
 type lost when simplified

---
 src/libawkward/array/UnmaskedArray.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index 3073efd..8974686 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -199,7 +199,15 @@ namespace awkward {
 
   const FormPtr
   UnmaskedForm::simplify_optiontype() const {
-    if (dynamic_cast<IndexedForm*>(content_.get())         ||
+    if (dynamic_cast<IndexedForm*>(content_.get())) {
+      IndexedOptionForm step1(has_identities_,
+                              parameters_,
+                              form_key_,
+                              Index::Form::i64,
+                              content_);
+      return step1.simplify_optiontype();
+    }
+    else if (
         dynamic_cast<IndexedOptionForm*>(content_.get())   ||
         dynamic_cast<ByteMaskedForm*>(content_.get())      ||
         dynamic_cast<BitMaskedForm*>(content_.get())       ||
@@ -253,7 +261,12 @@ namespace awkward {
   UnmaskedArray::simplify_optiontype() const {
     if (dynamic_cast<IndexedArray32*>(content_.get())        ||
         dynamic_cast<IndexedArrayU32*>(content_.get())       ||
-        dynamic_cast<IndexedArray64*>(content_.get())        ||
+        dynamic_cast<IndexedArray64*>(content_.get())) {
+      std::shared_ptr<IndexedOptionArray64> step1 = std::dynamic_pointer_cast<
+        IndexedOptionArray64>(toIndexedOptionArray64());
+      return step1.get()->simplify_optiontype();
+    }
+    else if (
         dynamic_cast<IndexedOptionArray32*>(content_.get())  ||
         dynamic_cast<IndexedOptionArray64*>(content_.get())  ||
         dynamic_cast<ByteMaskedArray*>(content_.get())       ||
-- 
2.43.0


From 1612631a1ea53f46facc755b5870d64bcd0d6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 44/78] fix: pad_none on records shorter than their contents
 kept the wrong length

---
 src/libawkward/array/RecordArray.cpp | 36 ++++++++--------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index e4dec9a..0a74168 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1426,19 +1426,11 @@ namespace awkward {
       for (auto content : contents_) {
         contents.push_back(content.get()->rpad(target, posaxis, depth));
       }
-      if (contents.empty()) {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_,
-                                             length_);
-      }
-      else {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_);
-      }
+      return std::make_shared<RecordArray>(identities_,
+                                           parameters_,
+                                           contents,
+                                           recordlookup_,
+                                           length_);
     }
   }
 
@@ -1456,19 +1448,11 @@ namespace awkward {
         contents.push_back(
           content.get()->rpad_and_clip(target, posaxis, depth));
       }
-      if (contents.empty()) {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_,
-                                             length_);
-      }
-      else {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_);
-      }
+      return std::make_shared<RecordArray>(identities_,
+                                           parameters_,
+                                           contents,
+                                           recordlookup_,
+                                           length_);
     }
   }
 
-- 
2.43.0


From b87dc132074bd81405235f08654611dde54a47cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 45/78] fix: broadcasting a value of the outer level over a
 regular dimension next to variable-length lists raised

---
 src/awkward/_util.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 10284a5..7f31de5 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -821,6 +821,18 @@ def broadcast_and_apply(  # noqa: C901
                                 )
                                 + exception_suffix(__file__)
                             )
+                    # handle implicit left-broadcasting (unlike NumPy)
+                    elif left_broadcast and isinstance(x, ak.layout.Content):
+                        nextinputs.append(
+                            ak.layout.IndexedArray64(
+                                ak.layout.Index64(
+                                    nplike.repeat(
+                                        nplike.arange(len(x), dtype=np.int64), maxsize
+                                    )
+                                ),
+                                x,
+                            ).project()
+                        )
                     else:
                         nextinputs.append(x)
 
-- 
2.43.0


From bf7e81df60959503bd4ce60825c3696148f4abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 46/78] fix: ak.mask with a multidimensional mask masked whole
 rows

---
 src/awkward/operations/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 8304b90..cb13599 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -181,6 +181,7 @@ def mask(array, mask, valid_when=True, highlevel=True, behavior=None):
         behavior,
         right_broadcast=False,
         pass_depth=False,
+        numpy_to_regular=True,
     )
     assert isinstance(out, tuple) and len(out) == 1
     if highlevel:
-- 
2.43.0


From ef6f80efdb3a9903eb5561b74f0f4de91af9bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 47/78] fix: to_regular depended on unreachable lists and on
 partition boundaries

---
 src/awkward/operations/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index cb13599..e9c4436 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -747,6 +747,11 @@ def to_regular(array, axis=1, highlevel=True, behavior=None):
 
     out = ak.operations.convert.to_layout(array)
     if axis != 0:
+        # The size must be the same in all partitions, and unreachable lists
+        # must not influence whether the array is regular.
+        if isinstance(out, ak.partition.PartitionedArray):
+            out = out.toContent()
+        out = _packed(out, highlevel=False)
         out = ak._util.recursively_apply(
             out,
             getfunction,
-- 
2.43.0


From a86a1f099a0f6fca8f3555d93ce916c46c9e7869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 48/78] fix: unflatten dropped the remainder for integer counts
 and failed for a negative axis that means axis 0

---
 src/awkward/operations/structure.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index e9c4436..c52e347 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2021,7 +2021,10 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
     # Pack the layout above the axis that will be unflattened. This ensures that
     # the `counts` array, which is computed through these layouts, aligns with
     # the layout to be unflattened (#910)
-    layout = _packed(layout, axis=axis - 1, highlevel=False)
+    if layout.axis_wrap_if_negative(axis) == 0:
+        axis = 0
+    if axis != 0:
+        layout = _packed(layout, axis=axis - 1, highlevel=False)
 
     if isinstance(counts, (numbers.Integral, np.integer)):
         current_offsets = None
@@ -2061,6 +2064,11 @@ def unflatten(array, counts, axis=0, highlevel=True, behavior=None):
                     "too large counts for array or negative counts"
                     + ak._util.exception_suffix(__file__)
                 )
+            if (len(layout) if counts == 0 else len(layout) % counts) != 0:
+                raise ValueError(
+                    "structure imposed by 'counts' does not fit in the array or partition "
+                    "at axis={0}".format(axis) + ak._util.exception_suffix(__file__)
+                )
             out = ak.layout.RegularArray(layout, counts)
 
         else:
-- 
2.43.0


From 908caa846ab8deb548f66090d9d85b2696b2a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 49/78] fix: packing left a RegularArray of length zero
 unpacked

---
 src/awkward/operations/structure.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index c52e347..c2b4826 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2308,9 +2308,6 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # RegularArrays can change length
         elif isinstance(layout, ak.layout.RegularArray):
-            if not len(layout):
-                return layout
-
             content = layout.content
 
             # Truncate content if it is larger than the lists need
-- 
2.43.0


From 6e07f148e0f4578572a5134d0ea11a043fefd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 50/78] fix: cartesian at axis=0 with nested lost empty groups
 and failed for dicts

---
 src/awkward/operations/structure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index c2b4826..fb5881b 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -3285,9 +3285,14 @@ def cartesian(
         ]
 
         result = ak.layout.RecordArray(outs, recordlookup, parameters=parameters)
-        for i in range(len(new_arrays) - 1, -1, -1):
+        for i in range(len(new_arrays) - 2, -1, -1):
             if i in nested:
-                result = ak.layout.RegularArray(result, len(layouts[i + 1]), 0)
+                zeros_length = 1
+                for x in layouts[: i + 1]:
+                    zeros_length *= len(x)
+                result = ak.layout.RegularArray(
+                    result, len(layouts[i + 1]), zeros_length
+                )
 
     elif is_partitioned:
         sample = None
-- 
2.43.0


From 026e73d9f4622bfd522a3703c4657fadf21a239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:06 +0000
Subject: [PATCH 51/78] fix: ufuncs with two outputs (divmod, modf, frexp)
 raised AttributeError

---
 src/awkward/_connect/_numpy.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/awkward/_connect/_numpy.py b/src/awkward/_connect/_numpy.py
index 19e5c4a..20c37b8 100644
--- a/src/awkward/_connect/_numpy.py
+++ b/src/awkward/_connect/_numpy.py
@@ -191,7 +191,11 @@ def array_ufunc(ufunc, method, inputs, kwargs):
             result = getattr(ufunc, method)(
                 *[nplike.asarray(x) for x in inputs], **kwargs
             )
-            return lambda: (ak.operations.convert.from_numpy(result, highlevel=False),)
+            if not isinstance(result, tuple):
+                result = (result,)
+            return lambda: tuple(
+                ak.operations.convert.from_numpy(x, highlevel=False) for x in result
+            )
         elif all(
             isinstance(x, ak.layout.NumpyArray) and (x.format.upper().startswith("M"))
             for x in inputs
@@ -200,7 +204,11 @@ def array_ufunc(ufunc, method, inputs, kwargs):
             result = getattr(ufunc, method)(
                 *[nplike.asarray(x.view_int64).view(x.format) for x in inputs], **kwargs
             )
-            return lambda: (ak.operations.convert.from_numpy(result, highlevel=False),)
+            if not isinstance(result, tuple):
+                result = (result,)
+            return lambda: tuple(
+                ak.operations.convert.from_numpy(x, highlevel=False) for x in result
+            )
 
         for x in inputs:
             if isinstance(x, ak.layout.Content):
@@ -246,8 +254,11 @@ def array_ufunc(ufunc, method, inputs, kwargs):
     out = ak._util.broadcast_and_apply(
         inputs, getfunction, behavior, allow_records=False, pass_depth=False
     )
-    assert isinstance(out, tuple) and len(out) == 1
-    return ak._util.wrap(out[0], behavior)
+    assert isinstance(out, tuple) and len(out) == ufunc.nout
+    if len(out) == 1:
+        return ak._util.wrap(out[0], behavior)
+    else:
+        return tuple(ak._util.wrap(x, behavior) for x in out)
 
 
 def matmul_for_numba(lefts, rights, dtype):
-- 
2.43.0


From ded2c940a022c63072826a57808e8fcc0dc5cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:06 +0000
Subject: [PATCH 52/78] fix: broadcasting a RegularArray with unreachable
 content to offsets kept the extra elements

---
 src/libawkward/array/RegularArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index d62c3e1..22a7815 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -334,7 +334,7 @@ namespace awkward {
       return std::make_shared<ListOffsetArray64>(identities,
                                                  parameters_,
                                                  offsets,
-                                                 content_);
+                                                 content_.get()->getitem_range_nowrap(0, len * size_));
     }
   }
 
-- 
2.43.0


From c41db66c8e277626bbbf187f8ec0ea9a8199a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:06 +0000
Subject: [PATCH 53/78] fix: validity_error raised AttributeError for records

---
 src/awkward/operations/describe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/describe.py b/src/awkward/operations/describe.py
index 209be09..3252d37 100644
--- a/src/awkward/operations/describe.py
+++ b/src/awkward/operations/describe.py
@@ -59,6 +59,8 @@ def validity_error(array, exception=False):
             ak.partition.PartitionedArray,
         ),
     ):
+        if isinstance(array, ak.layout.Record):
+            array = array.array
         out = array.validityerror()
         if out is not None and exception:
             raise ValueError(out)
-- 
2.43.0


From b7dcfd7e48277ad319bdcbd08f1752b882d9ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:06 +0000
Subject: [PATCH 54/78] fix: validity check of a string whose characters are
 not a NumpyArray dereferenced a null pointer; combinations at axis=0 nested
 index nodes

---
 src/libawkward/Content.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index dc3e9ad..0206098 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1381,11 +1381,11 @@ namespace awkward {
 
     ContentPtrVec contents;
     for (auto ptr : tocarry) {
-      contents.push_back(std::make_shared<IndexedArray64>(
+      contents.push_back(IndexedArray64(
         Identities::none(),
         util::Parameters(),
         Index64(ptr, 0, combinationslen, kernel::lib::cpu),   // DERIVE
-        shallow_copy()));
+        shallow_copy()).simplify_optiontype());
     }
     return std::make_shared<RecordArray>(Identities::none(),
                                          parameters,
@@ -1788,7 +1788,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"char\" only allowed for NumpyArray"));
       }
       return std::string("");
@@ -1843,7 +1843,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"byte\" only allowed for NumpyArray"));
       }
       return std::string("");
-- 
2.43.0


From 98187c7cabaa5c273bf825336e22ae8242177edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:06 +0000
Subject: [PATCH 55/78] fix: reducing or picking from optional lists/records
 returned invalid nested option nodes

---
 src/libawkward/array/ByteMaskedArray.cpp | 18 +++++++++---------
 src/libawkward/array/IndexedArray.cpp    |  8 ++++----
 src/libawkward/array/UnmaskedArray.cpp   |  6 +++---
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index bdb6e1e..5b7fbe8 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -791,11 +791,11 @@ namespace awkward {
     if (identities_.get() != nullptr) {
       identities = identities_.get()->getitem_carry_64(carry);
     }
-    return std::make_shared<ByteMaskedArray>(identities,
-                                             parameters_,
-                                             nextmask,
-                                             content_.get()->carry(carry, allow_lazy),
-                                             valid_when_);
+    return ByteMaskedArray(identities,
+                           parameters_,
+                           nextmask,
+                           content_.get()->carry(carry, allow_lazy),
+                           valid_when_).simplify_optiontype();
   }
 
   int64_t
@@ -1212,10 +1212,10 @@ namespace awkward {
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          IndexedOptionArray64(Identities::none(),
+                               util::Parameters(),
+                               outindex,
+                               raw->content()).simplify_optiontype());
       }
       else {
         throw std::runtime_error(
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 8859011..6b173c0 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2281,10 +2281,10 @@ namespace awkward {
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          IndexedOptionArray64(Identities::none(),
+                               util::Parameters(),
+                               outindex,
+                               raw->content()).simplify_optiontype());
       }
       else {
         throw std::runtime_error(
diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index 8974686..9fc1612 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -662,9 +662,9 @@ namespace awkward {
     if (identities_.get() != nullptr) {
       identities = identities_.get()->getitem_carry_64(carry);
     }
-    return std::make_shared<UnmaskedArray>(identities,
-                                           parameters_,
-                                           content_.get()->carry(carry, allow_lazy));
+    return UnmaskedArray(identities,
+                         parameters_,
+                         content_.get()->carry(carry, allow_lazy)).simplify_optiontype();
   }
 
   int64_t
-- 
2.43.0


From 4a33ab7524878bc1222edaffd64f9d2ef3cc7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:06 +0000
Subject: [PATCH 56/78] fix: where, isclose and broadcast_arrays mishandled
 multidimensional NumPy data and strings; nan_to_num and cartesian returned
 invalid arrays

---
 src/awkward/operations/structure.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index fb5881b..1a379a8 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1408,8 +1408,12 @@ def broadcast_arrays(*arrays, **kwargs):
 
     def getfunction(inputs):
         if (
-            all(isinstance(x, ak.layout.NumpyArray) for x in inputs)
-            and len(set(x.ndim for x in inputs)) == 1
+            all(
+                isinstance(x, ak.layout.NumpyArray)
+                or x.parameter("__array__") in ("string", "bytestring")
+                for x in inputs
+            )
+            and len(set(x.purelist_depth for x in inputs)) == 1
         ):
             return lambda: tuple(inputs)
         else:
@@ -1423,6 +1427,7 @@ def broadcast_arrays(*arrays, **kwargs):
         left_broadcast=left_broadcast,
         right_broadcast=right_broadcast,
         pass_depth=False,
+        numpy_to_regular=True,
     )
     assert isinstance(out, tuple)
     if highlevel:
@@ -1776,7 +1781,11 @@ def where(condition, *args, **kwargs):
 
         behavior = ak._util.behaviorof(akcondition, left, right)
         out = ak._util.broadcast_and_apply(
-            [akcondition, left, right], getfunction, behavior, pass_depth=False
+            [akcondition, left, right],
+            getfunction,
+            behavior,
+            pass_depth=False,
+            numpy_to_regular=True,
         )
 
         if highlevel:
@@ -3280,7 +3289,7 @@ def cartesian(
             )
         ]
         outs = [
-            ak.layout.IndexedArray64(x, y)
+            ak.layout.IndexedArray64(x, y).simplify()
             for x, y in __builtins__["zip"](indexes, layouts)
         ]
 
@@ -4416,7 +4425,8 @@ def nan_to_num(
                     nan=nan,
                     posinf=posinf,
                     neginf=neginf,
-                )
+                ),
+                parameters=layout.parameters,
             )
         else:
             return None
@@ -4474,7 +4484,11 @@ def isclose(
 
     behavior = ak._util.behaviorof(one, two, behavior=behavior)
     out = ak._util.broadcast_and_apply(
-        [one, two], getfunction, behavior, pass_depth=False
+        [one, two],
+        getfunction,
+        behavior,
+        pass_depth=False,
+        numpy_to_regular=True,
     )
     assert isinstance(out, tuple) and len(out) == 1
     result = out[0]
-- 
2.43.0


From 28e2549d778d1fb422da066a20449a00b14c55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:00 +0000
Subject: [PATCH 57/78] fix: where with indexed or lazy arguments stopped
 broadcasting too early

---
 src/awkward/operations/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 1a379a8..a6cbfcc 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1766,6 +1766,11 @@ def where(condition, *args, **kwargs):
 
         def getfunction(inputs):
             akcondition, left, right = inputs
+            if any(
+                isinstance(x, ak._util.virtualtypes + ak._util.indexedtypes)
+                for x in (left, right)
+            ):
+                return None  # broadcast_and_apply replaces these nodes first
             if isinstance(akcondition, ak.layout.NumpyArray):
                 npcondition = nplike.asarray(akcondition)
                 tags = ak.layout.Index8((npcondition == 0).view(np.int8))
-- 
2.43.0


From 9840c2887b7aab35c8c60faf04a96cbace354447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:00 +0000
Subject: [PATCH 58/78] fix: merging a RegularArray with unreachable content
 after another list array misplaced the lists after it

---
 src/libawkward/array/ListArray.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 48e0b0d..8ff042f 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1266,7 +1266,7 @@ namespace awkward {
           raw->length(),
           contentlength_so_far);
         util::handle_error(err, raw->classname(), raw->identities().get());
-        contentlength_so_far += raw->content().get()->length();
+        contentlength_so_far += rawregular->content().get()->length();
         length_so_far += raw->length();
       }
       else if (EmptyArray* raw = dynamic_cast<EmptyArray*>(array.get())) {
@@ -1764,7 +1764,8 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // each element keeps its position in the broadcasted index arrays
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
-- 
2.43.0


From fc6824bd517900e8602c91fc897818e652b1707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:00 +0000
Subject: [PATCH 59/78] fix: three or more index arrays after a range slice
 read outside the index arrays (with the previous commit's ListArray part)

---
 src/libawkward/array/ListOffsetArray.cpp | 3 ++-
 src/libawkward/array/RegularArray.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index e83afec..c9080f7 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2318,7 +2318,8 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // each element keeps its position in the broadcasted index arrays
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 22a7815..9f030c7 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1520,7 +1520,8 @@ namespace awkward {
       util::handle_error(err, classname(), identities_.get());
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // each element keeps its position in the broadcasted index arrays
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
-- 
2.43.0


From af4af2f44849e902b70d2338a1638ecc46168bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:00 +0000
Subject: [PATCH 60/78] fix: validity check of a categorical array with invalid
 categories raised instead of reporting

---
 src/libawkward/Content.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 0206098..548aae7 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1883,6 +1883,11 @@ namespace awkward {
                 + std::string("): __array__ = \"categorical\" only allowed for "
                               "IndexedArray and IndexedOptionArray"));
       }
+      const std::string contentcheck =
+        content.get()->validityerror(path + std::string(".content"));
+      if (contentcheck != std::string("")) {
+        return contentcheck;   // is_unique is only defined for valid content
+      }
       if (!content.get()->is_unique()) {
         return (std::string("at ") + path + std::string(" (") + classname()
             + std::string("): __array__ = \"categorical\" requires contents "
-- 
2.43.0


From 8f75a7bf39f0080428f973f176b0dad8002d6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 61/78] fix: fix: ArrayBuilder: complex promotion of integers,
 nested tuple indices, clear() of tuples and records, zero-size growable
 buffers, mixed strings and bytestrings, appends of option arrays

---
 src/libawkward/builder/Complex128Builder.cpp |  6 +++--
 src/libawkward/builder/GrowableBuffer.cpp    |  3 ++-
 src/libawkward/builder/IndexedBuilder.cpp    | 24 ++++++++++----------
 src/libawkward/builder/RecordBuilder.cpp     |  9 +++-----
 src/libawkward/builder/StringBuilder.cpp     |  6 +++++
 src/libawkward/builder/TupleBuilder.cpp      | 20 ++++++++--------
 6 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 6615ed1..aec7998 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -24,7 +24,7 @@ namespace awkward {
       GrowableBuffer<std::complex<double>>::empty(options, old.reserved());
     int64_t* oldraw = old.ptr().get();
     std::complex<double>* newraw = buffer.ptr().get();
-    for (int64_t i = 0;  i < 2*old.length();  i++) {
+    for (int64_t i = 0;  i < old.length();  i++) {
       newraw[i] = {static_cast<double>(oldraw[i]), 0};
     }
     buffer.set_length(old.length());
@@ -190,7 +190,9 @@ namespace awkward {
 
   const BuilderPtr
   Complex128Builder::endrecord() {
-    return shared_from_this();
+    throw std::invalid_argument(
+      std::string("called 'end_record' without 'begin_record' at the same level before it")
+      + FILENAME(__LINE__));
   }
 
   const BuilderPtr
diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..77b6d30 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -123,7 +123,8 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      int64_t next = (int64_t)ceil(reserved_ * options_.resize());
+      set_reserved(next > reserved_ ? next : reserved_ + 1);
     }
     ptr_.get()[length_] = datum;
     length_++;
diff --git a/src/libawkward/builder/IndexedBuilder.cpp b/src/libawkward/builder/IndexedBuilder.cpp
index 7e783a2..c63b6c4 100644
--- a/src/libawkward/builder/IndexedBuilder.cpp
+++ b/src/libawkward/builder/IndexedBuilder.cpp
@@ -247,18 +247,18 @@ namespace awkward {
   IndexedGenericBuilder::snapshot() const {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     if (hasnull_) {
-      return std::make_shared<IndexedOptionArray64>(
+      return IndexedOptionArray64(
         Identities::none(),
         util::Parameters(),
         index,
-        array_);
+        array_).simplify_optiontype();
     }
     else {
-      return std::make_shared<IndexedArray64>(
+      return IndexedArray64(
         Identities::none(),
         util::Parameters(),
         index,
-        array_);
+        array_).simplify_optiontype();
     }
   }
 
@@ -297,14 +297,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -345,14 +345,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -393,14 +393,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -443,7 +443,7 @@ namespace awkward {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     return std::make_shared<IndexedOptionArray64>(
       Identities::none(),
-      array_.get()->content().get()->parameters(),
+      array_.get()->parameters(),
       index,
       array_.get()->content());
   }
@@ -484,7 +484,7 @@ namespace awkward {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     return std::make_shared<IndexedOptionArray64>(
       Identities::none(),
-      array_.get()->content().get()->parameters(),
+      array_.get()->parameters(),
       index,
       array_.get()->content());
   }
diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..8065aad 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -83,15 +83,12 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    keys_.clear();
-    pointers_.clear();
-    name_ = "";
-    nameptr_ = nullptr;
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
     nexttotry_ = 0;
-    keys_size_ = 0;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/StringBuilder.cpp b/src/libawkward/builder/StringBuilder.cpp
index 3810f04..e093187 100644
--- a/src/libawkward/builder/StringBuilder.cpp
+++ b/src/libawkward/builder/StringBuilder.cpp
@@ -152,6 +152,12 @@ namespace awkward {
 
   const BuilderPtr
   StringBuilder::string(const char* x, int64_t length, const char* encoding) {
+    if ((encoding == nullptr) != (encoding_ == nullptr)) {
+      // strings and bytestrings are different types
+      BuilderPtr out = UnionBuilder::fromsingle(options_, shared_from_this());
+      out.get()->string(x, length, encoding);
+      return out;
+    }
     if (length < 0) {
       for (int64_t i = 0;  x[i] != 0;  i++) {
         content_.append((uint8_t)x[i]);
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..b8a086b 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -58,7 +58,9 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
   }
@@ -340,16 +342,16 @@ namespace awkward {
         std::string("called 'index' without 'begin_tuple' at the same level before it")
         + FILENAME(__LINE__));
     }
-    else if (index >= (int64_t)contents_.size()) {
-      throw std::invalid_argument(
-        std::string("'index' ")
-        + std::to_string(index)
-        + (" is out of bounds for a tuple with number of fields ")
-        + std::to_string(contents_.size())
-        + FILENAME(__LINE__));
-    }
     else if (nextindex_ == -1  ||
              !contents_[(size_t)nextindex_].get()->active()) {
+      if (index < 0  ||  index >= (int64_t)contents_.size()) {
+        throw std::invalid_argument(
+          std::string("'index' ")
+          + std::to_string(index)
+          + (" is out of bounds for a tuple with number of fields ")
+          + std::to_string(contents_.size())
+          + FILENAME(__LINE__));
+      }
       nextindex_ = index;
     }
     else {
-- 
2.43.0


From fd327c0214c1049a70026d37f107fc40e9de1ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 62/78] fix: fix: concatenating complex with real numbers left
 uninitialised values

---
 src/libawkward/array/NumpyArray.cpp | 49 ++++++++++++++---------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index e42871a..a957d78 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2698,7 +2698,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
@@ -2706,7 +2706,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
@@ -2714,7 +2714,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
@@ -2722,7 +2722,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
@@ -2730,7 +2730,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
@@ -2738,7 +2738,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
@@ -2746,7 +2746,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
@@ -2754,7 +2754,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
@@ -2762,7 +2762,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2775,7 +2775,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
@@ -2783,7 +2783,7 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
@@ -2792,7 +2792,6 @@ namespace awkward {
             flatlength_so_far,
             reinterpret_cast<std::complex<float>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
           break;
         default:
           throw std::runtime_error(
@@ -2801,6 +2800,7 @@ namespace awkward {
                         "complex64}")
             + FILENAME(__LINE__));
         }
+        flatlength = flatlength * 2;   // counted in real and imaginary parts
         break;
 
       // to complex128
@@ -2812,7 +2812,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
@@ -2820,7 +2820,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
@@ -2828,7 +2828,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
@@ -2836,7 +2836,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
@@ -2844,7 +2844,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
@@ -2852,7 +2852,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
@@ -2860,7 +2860,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
@@ -2868,7 +2868,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
@@ -2876,7 +2876,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2889,7 +2889,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
@@ -2897,7 +2897,7 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
@@ -2906,7 +2906,6 @@ namespace awkward {
             flatlength_so_far,
             reinterpret_cast<std::complex<float>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
           break;
         case util::dtype::complex128:
           err = kernel::NumpyArray_fill<std::complex<double>, std::complex<double>>(
@@ -2915,7 +2914,6 @@ namespace awkward {
             flatlength_so_far,
             reinterpret_cast<std::complex<double>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
           break;
         default:
           throw std::runtime_error(
@@ -2924,6 +2922,7 @@ namespace awkward {
                         "complex64, complex128}")
             + FILENAME(__LINE__));
         }
+        flatlength = flatlength * 2;   // counted in real and imaginary parts
         break;
 
       // to complex256
-- 
2.43.0


From 57f6f3c968792272092c416ba220bcbeef5dc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 63/78] fix: fix: concatenating datetime64/timedelta64 arrays
 lost precision and NaT

---
 .../awkward_NumpyArray_fill_scaled.cpp           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_fill_scaled.cpp b/src/cpu-kernels/awkward_NumpyArray_fill_scaled.cpp
index d3d41fd..807a9c4 100644
--- a/src/cpu-kernels/awkward_NumpyArray_fill_scaled.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_fill_scaled.cpp
@@ -2,6 +2,8 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS_C("src/cpu-kernels/awkward_NumpyArray_fill_scaled.cpp", line)
 
+#include <limits>
+
 #include "awkward/kernels.h"
 
 template <typename FROM, typename TO>
@@ -11,8 +13,18 @@ awkward_NumpyArray_fill_scaled(TO* toptr,
                                const FROM* fromptr,
                                int64_t length,
                                double scale) {
-  for (int64_t i = 0; i < length; i++) {
-    toptr[tooffset + i] = (TO)(fromptr[i] * scale);
+  if (scale >= 1.0 && scale < 9007199254740992.0 && scale == (double)(int64_t)scale) {
+    // exact: a double can't represent all (nanosecond) values; NaT stays NaT
+    uint64_t factor = (uint64_t)scale;
+    for (int64_t i = 0; i < length; i++) {
+      toptr[tooffset + i] = fromptr[i] == std::numeric_limits<FROM>::min()
+        ? (TO)fromptr[i] : (TO)((uint64_t)fromptr[i] * factor);
+    }
+  }
+  else {
+    for (int64_t i = 0; i < length; i++) {
+      toptr[tooffset + i] = (TO)(fromptr[i] * scale);
+    }
   }
   return success();
 }
-- 
2.43.0


From 11a3c60db1dc380804c813c7e68a84ae87828b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 64/78] fix: fix: overlay_mask wrote 4294967295 for missing
 entries of an unsigned index

---
 src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
index de98cec..2e4b2e5 100644
--- a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
+++ b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
@@ -12,7 +12,7 @@ ERROR awkward_IndexedArray_overlay_mask(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     M m = mask[i];
-    toindex[i] = (m ? -1 : fromindex[i]);
+    toindex[i] = (m ? (TO)-1 : (TO)fromindex[i]);
   }
   return success();
 }
-- 
2.43.0


From 19f77135a13296c9dede54f09693ecf605ea809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:08 +0000
Subject: [PATCH 65/78] fix: fix: index arrays of three or more dimensions were
 flattened from the wrong offsets

---
 src/cpu-kernels/awkward_slicearray_ravel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_slicearray_ravel.cpp b/src/cpu-kernels/awkward_slicearray_ravel.cpp
index b4196e8..60ac6a4 100644
--- a/src/cpu-kernels/awkward_slicearray_ravel.cpp
+++ b/src/cpu-kernels/awkward_slicearray_ravel.cpp
@@ -17,10 +17,14 @@ ERROR awkward_slicearray_ravel(
     }
   }
   else {
+    int64_t inner = 1;
+    for (int64_t j = 1;  j < ndim;  j++) {
+      inner *= shape[j];
+    }
     for (T i = 0;  i < shape[0];  i++) {
       ERROR err =
         awkward_slicearray_ravel<T>(
-          &toptr[i*shape[1]],
+          &toptr[i*inner],
           &fromptr[i*strides[0]],
           ndim - 1,
           &shape[1],
-- 
2.43.0


From 16418e471d3c25e063a97bb454e2a6b6f6a73082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:12 +0000
Subject: [PATCH 66/78] fix: Forth machine: no reads outside inputs, endless
 growth or recursion overflow; inputs are not modified; 64-bit values,
 division, abs, exit, step and strings as the language defines (also C19)

---
 src/libawkward/forth/ForthInputBuffer.cpp  |  10 +-
 src/libawkward/forth/ForthMachine.cpp      | 196 +++++++++++----------
 src/libawkward/forth/ForthOutputBuffer.cpp | 124 ++++++-------
 src/python/forth.cpp                       |  20 ++-
 4 files changed, 183 insertions(+), 167 deletions(-)

diff --git a/src/libawkward/forth/ForthInputBuffer.cpp b/src/libawkward/forth/ForthInputBuffer.cpp
index 13807d6..72f2a7b 100644
--- a/src/libawkward/forth/ForthInputBuffer.cpp
+++ b/src/libawkward/forth/ForthInputBuffer.cpp
@@ -15,15 +15,14 @@ namespace awkward {
 
   void*
   ForthInputBuffer::read(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next > length_) {
+    if (num_bytes < 0  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::read_beyond;
       return nullptr;
     }
     void* out = reinterpret_cast<void*>(
         reinterpret_cast<size_t>(ptr_.get()) + (size_t)offset_ + (size_t)pos_
     );
-    pos_ = next;
+    pos_ += num_bytes;
     return out;
   }
 
@@ -39,12 +38,11 @@ namespace awkward {
 
   void
   ForthInputBuffer::skip(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next < 0  ||  next > length_) {
+    if (num_bytes < -pos_  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::skip_beyond;
     }
     else {
-      pos_ = next;
+      pos_ += num_bytes;
     }
   }
 
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..b45e56b 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -248,6 +248,11 @@ namespace awkward {
     , count_writes_(0)
     , count_nanoseconds_(0)
   {
+    if (recursion_max_depth < 1) {
+      throw std::invalid_argument(
+        std::string("AwkwardForth recursion depth must be at least 1")
+        + FILENAME(__LINE__));
+    }
     std::vector<std::string> tokenized;
     std::vector<std::pair<int64_t, int64_t>> linecol;
     tokenize(tokenized, linecol);
@@ -1234,6 +1239,11 @@ namespace awkward {
       return current_error_;
     }
 
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
+
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
 
@@ -1676,7 +1686,7 @@ namespace awkward {
         }
         start = stop;
         colstart = colstop;
-        while (current != '\"'  &&  source_[stop - 1] != '\\') {
+        while (current != '\"'  ||  source_[stop - 1] == '\\') {
           if (current == '\n') {
             nextline++;
             colstart = 0;
@@ -2649,6 +2659,28 @@ namespace awkward {
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
+    // Leave the current segment and, if it was the body of a 'do ... loop' or a
+    // 'do ... +loop' (and not a word that was called from outside while the loop
+    // was paused), end one step of that loop.
+    auto end_segment = [&]() -> void {
+      bytecodes_pointer_pop();
+
+      if (recursion_current_depth_ != recursion_target_depth_top  &&
+          do_current_depth_ != 0  &&
+          do_abs_recursion_depth() == recursion_current_depth_) {
+        if (do_loop_is_step()) {
+          if (stack_cannot_pop()) {
+            current_error_ = util::ForthError::stack_underflow;
+            return;
+          }
+          do_i() += stack_pop();
+        }
+        else {
+          do_i()++;
+        }
+      }
+    };
+
     while (recursion_current_depth_ != recursion_target_depth_top) {
       while (bytecodes_pointer_where() < (
                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
@@ -2688,6 +2720,10 @@ namespace awkward {
               return;
             }
             num_items = stack_pop();
+            if (num_items < 0  ||  num_items > INT64_MAX / (int64_t)sizeof(int64_t)) {
+              current_error_ = util::ForthError::read_beyond;
+              return;
+            }
           }
 
           I format = ~bytecode & READ_MASK;
@@ -2770,7 +2806,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
@@ -2790,59 +2826,39 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
-            uint64_t bits_wnd_l = 8;
-            uint64_t bits_wnd_r = 0;
-            int64_t items_remaining = num_items;
-            uint64_t data;
-            uint64_t tmp;
-            uint8_t* tmpptr;
-
-            if (items_remaining != 0) {
-              tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-              if (current_error_ != util::ForthError::none) {
-                return;
-              }
-              tmp = (uint64_t)(*tmpptr);
-              if (flip) {
-                // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-              }
-              data = tmp;
-            }
-            while (items_remaining != 0) {
-              if (bits_wnd_r >= 8) {
-                bits_wnd_r -= 8;
-                bits_wnd_l -= 8;
-                data >>= 8;
-              }
-              else if (bits_wnd_l - bits_wnd_r >= (uint64_t)bit_width) {
-                tmp = (data >> bits_wnd_r) & mask;
-                if (output == nullptr) {
-                  if (stack_cannot_push()) {
-                    current_error_ = util::ForthError::stack_overflow;
+            uint64_t data = 0;
+            int64_t data_bits = 0;
+            for (int64_t count = 0;  count < num_items;  count++) {
+              uint64_t value = 0;
+              int64_t value_bits = 0;
+              while (value_bits < (int64_t)bit_width) {
+                if (data_bits == 0) {
+                  uint8_t* byte = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
+                  if (current_error_ != util::ForthError::none) {
                     return;
                   }
-                  stack_push((T)tmp);
-                }
-                else {
-                  output->write_one_int64((T)tmp, false);
+                  data = (uint64_t)(*byte);
+                  if (flip) {
+                    // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
+                    data = (uint64_t)(bitswap_lookup[data & 0b1111] << 4) | bitswap_lookup[data >> 4];
+                  }
+                  data_bits = 8;
                 }
-                items_remaining--;
-                bits_wnd_r += (uint64_t)bit_width;
+                int64_t take = std::min(data_bits, (int64_t)bit_width - value_bits);
+                value |= (data & (((uint64_t)1 << take) - 1)) << value_bits;
+                data >>= take;
+                data_bits -= take;
+                value_bits += take;
               }
-              else {
-                tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-                if (current_error_ != util::ForthError::none) {
+              if (output == nullptr) {
+                if (stack_cannot_push()) {
+                  current_error_ = util::ForthError::stack_overflow;
                   return;
                 }
-                tmp = (uint64_t)(*tmpptr);
-                if (flip) {
-                  // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                  tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-                }
-                data |= tmp << bits_wnd_l;
-                bits_wnd_l += 8;
+                stack_push((T)value);
+              }
+              else {
+                output->write_one_int64((int64_t)value, false);
               }
             }
           }
@@ -2924,7 +2940,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2950,7 +2966,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3015,21 +3031,9 @@ namespace awkward {
             case CODE_PAUSE: {
               // In case of 'do ... pause loop/+loop', update the do-stack.
               if (is_segment_done()) {
-                bytecodes_pointer_pop();
-
-                if (do_current_depth_ != 0  &&
-                    do_abs_recursion_depth() == recursion_current_depth_) {
-                  // End one step of a 'do ... loop' or a 'do ... +loop'.
-                  if (do_loop_is_step()) {
-                    if (stack_cannot_pop()) {
-                      current_error_ = util::ForthError::stack_underflow;
-                      return;
-                    }
-                    do_i() += stack_pop();
-                  }
-                  else {
-                    do_i()++;
-                  }
+                end_segment();
+                if (current_error_ != util::ForthError::none) {
+                  return;
                 }
               }
 
@@ -3155,15 +3159,13 @@ namespace awkward {
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
 
               count_instructions_++;
               if (single_step) {
-                if (is_segment_done()) {
-                  bytecodes_pointer_pop();
-                }
+                end_segment();
                 return;
               }
 
@@ -3217,7 +3219,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3228,7 +3230,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3324,7 +3326,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3388,7 +3390,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3397,7 +3399,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3406,7 +3408,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
@@ -3537,6 +3539,11 @@ namespace awkward {
               }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
+              if (pair[1] == -1) {
+                // The most negative number divided by -1 is not a valid C++ division.
+                pair[0] = (T)(0 - (uint64_t)pair[0]);
+                break;
+              }
               T tmp = pair[0] / pair[1];
               pair[0] = tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
               break;
@@ -3554,7 +3561,12 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
+              if (pair[1] == -1) {
+                pair[0] = 0;
+                break;
+              }
+              T tmp = pair[0] % pair[1];
+              pair[0] = (tmp != 0  &&  ((tmp < 0) ^ (pair[1] < 0))) ? tmp + pair[1] : tmp;
               break;
             }
 
@@ -3570,11 +3582,17 @@ namespace awkward {
                 return;
               }
               // See notes on division and modulo/remainder above.
+              if (two == -1) {
+                stack_buffer_[stack_depth_ - 1] = (T)(0 - (uint64_t)one);
+                stack_buffer_[stack_depth_ - 2] = 0;
+                break;
+              }
               T tmp = one / two;
               stack_buffer_[stack_depth_ - 1] =
                   tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
+              tmp = one % two;
               stack_buffer_[stack_depth_ - 2] =
-                  (two + (one % two)) % two;
+                  (tmp != 0  &&  ((tmp < 0) ^ (two < 0))) ? tmp + two : tmp;
               break;
             }
 
@@ -3614,7 +3632,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = *top < 0 ? -(*top) : *top;
               break;
             }
 
@@ -3791,7 +3809,7 @@ namespace awkward {
         count_instructions_++;
         if (single_step) {
           if (is_segment_done()) {
-            bytecodes_pointer_pop();
+            end_segment();
           }
           return;
         }
@@ -3799,21 +3817,9 @@ namespace awkward {
       } // end walk over instructions in this segment
 
     after_end_of_segment:
-      bytecodes_pointer_pop();
-
-      if (do_current_depth_ != 0  &&
-          do_abs_recursion_depth() == recursion_current_depth_) {
-        // End one step of a 'do ... loop' or a 'do ... +loop'.
-        if (do_loop_is_step()) {
-          if (stack_cannot_pop()) {
-            current_error_ = util::ForthError::stack_underflow;
-            return;
-          }
-          do_i() += stack_pop();
-        }
-        else {
-          do_i()++;
-        }
+      end_segment();
+      if (current_error_ != util::ForthError::none) {
+        return;
       }
 
     } // end of all segments
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..185a981 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -66,12 +66,11 @@ namespace awkward {
 
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
-    int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (num_items < 0  ||  num_items > length_) {
       err = util::ForthError::rewind_beyond;
     }
     else {
-      length_ = next;
+      length_ -= num_items;
     }
   }
 
@@ -375,11 +374,13 @@ namespace awkward {
                                         int16_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      byteswap16(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_int16(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap16(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -389,11 +390,13 @@ namespace awkward {
                                         int32_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      byteswap32(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_int32(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap32(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -403,11 +406,13 @@ namespace awkward {
                                         int64_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      byteswap64(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_int64(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap64(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -417,21 +422,13 @@ namespace awkward {
                                        ssize_t* values,
                                        bool byteswap) noexcept {
     if (byteswap) {
-      if (sizeof(ssize_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_intp(values[i], true);
       }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      if (sizeof(ssize_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
-      }
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -449,11 +446,13 @@ namespace awkward {
                                          uint16_t* values,
                                          bool byteswap) noexcept {
     if (byteswap) {
-      byteswap16(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_uint16(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap16(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -463,11 +462,13 @@ namespace awkward {
                                          uint32_t* values,
                                          bool byteswap) noexcept {
     if (byteswap) {
-      byteswap32(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_uint32(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap32(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -477,11 +478,13 @@ namespace awkward {
                                          uint64_t* values,
                                          bool byteswap) noexcept {
     if (byteswap) {
-      byteswap64(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_uint64(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap64(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -491,21 +494,13 @@ namespace awkward {
                                         size_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      if (sizeof(size_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_uintp(values[i], true);
       }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      if (sizeof(size_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
-      }
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -515,11 +510,13 @@ namespace awkward {
                                           float* values,
                                           bool byteswap) noexcept {
     if (byteswap) {
-      byteswap32(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_float32(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap32(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -529,11 +526,13 @@ namespace awkward {
                                           double* values,
                                           bool byteswap) noexcept {
     if (byteswap) {
-      byteswap64(num_items, values);
+      // Don't modify the input, even temporarily: it may be shared.
+      for (int64_t i = 0;  i < num_items;  i++) {
+        write_one_float64(values[i], true);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap64(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -712,7 +711,8 @@ namespace awkward {
     if (next > reserved_) {
       int64_t reservation = reserved_;
       while (next > reservation) {
-        reservation = (int64_t)std::ceil(reservation * resize_);
+        int64_t larger = (int64_t)std::ceil(reservation * resize_);
+        reservation = larger > reservation ? larger : next;
       }
       std::shared_ptr<OUT> new_buffer = std::shared_ptr<OUT>(new OUT[reservation],
                                                              kernel::array_deleter<OUT>());
diff --git a/src/python/forth.cpp b/src/python/forth.cpp
index ae77a4d..40e834b 100644
--- a/src/python/forth.cpp
+++ b/src/python/forth.cpp
@@ -229,8 +229,14 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 py::buffer obj = pair.second.cast<py::buffer>();
                 py::buffer_info info = obj.request(self.input_must_be_writable(name));
                 int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
+                for (int64_t d = (int64_t)info.ndim - 1;  d >= 0;  d--) {
+                  if (info.size != 0  &&  info.shape[d] != 1  &&
+                      info.strides[d] != length) {
+                    throw std::invalid_argument(
+                      std::string("AwkwardForth input must be a contiguous buffer: ")
+                      + name + FILENAME(__LINE__));
+                  }
+                  length *= info.shape[d];
                 }
                 std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
                     reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
@@ -290,8 +296,14 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 py::buffer obj = pair.second.cast<py::buffer>();
                 py::buffer_info info = obj.request(self.input_must_be_writable(name));
                 int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
+                for (int64_t d = (int64_t)info.ndim - 1;  d >= 0;  d--) {
+                  if (info.size != 0  &&  info.shape[d] != 1  &&
+                      info.strides[d] != length) {
+                    throw std::invalid_argument(
+                      std::string("AwkwardForth input must be a contiguous buffer: ")
+                      + name + FILENAME(__LINE__));
+                  }
+                  length *= info.shape[d];
                 }
                 std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
                     reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
-- 
2.43.0


From 0f15341691bd41bea16ccacfa523df432505e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:09 +0000
Subject: [PATCH 67/78] fix: merging unwraps arrays that are lazy more than
 once

---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 548aae7..ef4f449 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,7 +941,7 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
         other = raw->array();
       }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
@@ -964,7 +964,7 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
         other = raw->array();
       }
       tail.push_back(other);
-- 
2.43.0


From 3d8db8d5d729e1db0db1fb5b47618bf415742b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:09 +0000
Subject: [PATCH 68/78] fix: JSON: valid text for NaN, infinities, unsigned and
 complex numbers and strided arrays; exact reading of numbers, nested complex
 records and truncated strings; parameters keep their values

---
 include/awkward/io/json.h           |  12 +++
 src/awkward/operations/convert.py   |   5 +-
 src/libawkward/array/NumpyArray.cpp |  31 ++++--
 src/libawkward/io/json.cpp          | 158 +++++++++++++++++-----------
 4 files changed, 134 insertions(+), 72 deletions(-)

diff --git a/include/awkward/io/json.h b/include/awkward/io/json.h
index 8bf0bae..8c1e0ca 100644
--- a/include/awkward/io/json.h
+++ b/include/awkward/io/json.h
@@ -33,6 +33,10 @@ namespace awkward {
     /// @brief Append an integer value `x`.
     virtual void
       integer(int64_t x) = 0;
+
+    /// @brief Append an unsigned integer value `x`.
+    virtual void
+      unsigned_integer(uint64_t x) = 0;
     /// @brief Append a real value `x`.
     virtual void
       real(double x) = 0;
@@ -101,6 +105,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
@@ -165,6 +171,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
@@ -233,6 +241,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
@@ -298,6 +308,8 @@ namespace awkward {
       boolean(bool x) override;
     void
       integer(int64_t x) override;
+    void
+      unsigned_integer(uint64_t x) override;
     void
       real(double x) override;
     void
diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c9a15da..3b59079 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -1087,13 +1087,14 @@ def from_json(
                     and isinstance(imag, ak.layout.NumpyArray)
                     and len(imag.shape) == 1
                 ):
-                    return lambda: nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    return lambda: ak.layout.NumpyArray(
+                        nplike.asarray(real) + nplike.asarray(imag) * 1j
+                    )
                 else:
                     raise ValueError(
                         "Complex number fields must be numbers"
                         + ak._util.exception_suffix(__file__)
                     )
-                return lambda: ak.layout.NumpyArray(real + imag * 1j)
             else:
                 return None
         else:
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index a957d78..725fb87 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -4883,22 +4883,33 @@ namespace awkward {
     }
   }
 
+  template <typename T>
+  void
+  tojson_integer_item(ToJson& builder, T x) {
+    if (std::is_unsigned<T>::value) {
+      builder.unsigned_integer((uint64_t)x);
+    }
+    else {
+      builder.integer((int64_t)x);
+    }
+  }
+
   template <typename T>
   void
   NumpyArray::tojson_integer(ToJson& builder,
                              bool include_beginendlist) const {
     if (ndim() == 0) {
       T* array = reinterpret_cast<T*>(data());
-      builder.integer((int64_t)array[0]);
+      tojson_integer_item<T>(builder, array[0]);
     }
     else if (ndim() == 1) {
-      T* array = reinterpret_cast<T*>(data());
-      int64_t stride = strides_[0] / (int64_t)(sizeof(T));
+      NumpyArray contiguous_self = contiguous();
+      T* array = reinterpret_cast<T*>(contiguous_self.data());
       if (include_beginendlist) {
         builder.beginlist();
       }
       for (int64_t i = 0;  i < length();  i++) {
-        builder.integer((int64_t)array[i*stride]);
+        tojson_integer_item<T>(builder, array[i]);
       }
       if (include_beginendlist) {
         builder.endlist();
@@ -4935,13 +4946,13 @@ namespace awkward {
       builder.real(array[0]);
     }
     else if (ndim() == 1) {
-      T* array = reinterpret_cast<T*>(data());
-      int64_t stride = strides_[0] / (int64_t)(sizeof(T));
+      NumpyArray contiguous_self = contiguous();
+      T* array = reinterpret_cast<T*>(contiguous_self.data());
       if (include_beginendlist) {
         builder.beginlist();
       }
       for (int64_t i = 0;  i < length();  i++) {
-        builder.real(array[i*stride]);
+        builder.real(array[i]);
       }
       if (include_beginendlist) {
         builder.endlist();
@@ -4978,13 +4989,13 @@ namespace awkward {
       builder.complex(array[0]);
     }
     else if (ndim() == 1) {
-      T* array = reinterpret_cast<T*>(data());
-      int64_t stride = strides_[0] / (int64_t)(sizeof(T));
+      NumpyArray contiguous_self = contiguous();
+      T* array = reinterpret_cast<T*>(contiguous_self.data());
       if (include_beginendlist) {
         builder.beginlist();
       }
       for (int64_t i = 0;  i < length();  i++) {
-        builder.complex(array[i*stride]);
+        builder.complex(array[i]);
       }
       if (include_beginendlist) {
         builder.endlist();
diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index cc10337..75f84d5 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -34,6 +34,24 @@ namespace awkward {
     field(x.c_str());
   }
 
+  template <typename WRITER>
+  void writereal(double x, WRITER& writer) {
+    if (std::isnan(x)) {
+      writer.RawValue("NaN", 3, rj::kNumberType);
+    }
+    else if (std::isinf(x)) {
+      if (std::signbit(x)) {
+        writer.RawValue("-Infinity", 9, rj::kNumberType);
+      }
+      else {
+        writer.RawValue("Infinity", 8, rj::kNumberType);
+      }
+    }
+    else {
+      writer.Double(x);
+    }
+  }
+
   template <typename DOCUMENT, typename WRITER>
   void copyjson(const DOCUMENT& value, WRITER& writer) {
     if (value.IsNull()) {
@@ -42,14 +60,17 @@ namespace awkward {
     else if (value.IsBool()) {
       writer.Bool(value.GetBool());
     }
-    else if (value.IsInt()) {
-      writer.Int64(value.GetInt());
+    else if (value.IsInt64()) {
+      writer.Int64(value.GetInt64());
+    }
+    else if (value.IsUint64()) {
+      writer.Uint64(value.GetUint64());
     }
     else if (value.IsDouble()) {
-      writer.Int64((int64_t)value.GetDouble());
+      writereal(value.GetDouble(), writer);
     }
     else if (value.IsString()) {
-      writer.String(value.GetString());
+      writer.String(value.GetString(), value.GetStringLength());
     }
     else if (value.IsArray()) {
       writer.StartArray();
@@ -61,7 +82,7 @@ namespace awkward {
     else if (value.IsObject()) {
       writer.StartObject();
       for (auto it = value.MemberBegin();  it != value.MemberEnd();  ++it) {
-        writer.Key(it->name.GetString());
+        writer.Key(it->name.GetString(), it->name.GetStringLength());
         copyjson(it->value, writer);
       }
       writer.EndObject();
@@ -82,17 +103,8 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
-    void complex(std::complex<double> x,
-                 const char* complex_real_string,
-                 const char* complex_imag_string) {
-      beginrecord();
-      field(complex_real_string);
-      real(x.real());
-      field(complex_imag_string);
-      real(x.imag());
-      endrecord();
-    }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
+    void real(double x) { writereal(x, writer_); }
     void string(const char* x, int64_t length) {
       writer_.String(x, (rj::SizeType)length); }
     void beginlist() { writer_.StartArray(); }
@@ -102,7 +114,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
     const std::string tostring() {
@@ -145,6 +157,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonString::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonString::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -162,7 +179,12 @@ namespace awkward {
   void
   ToJsonString::complex(std::complex<double> x) {
     if (complex_real_string_ != nullptr  &&  complex_imag_string_ != nullptr) {
-      impl_->complex(x, complex_real_string_, complex_imag_string_);
+      beginrecord();
+      field(complex_real_string_);
+      real(x.real());
+      field(complex_imag_string_);
+      real(x.imag());
+      endrecord();
     }
     else {
       throw std::invalid_argument(
@@ -223,17 +245,8 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
-    void complex(std::complex<double> x,
-                 const char* complex_real_string,
-                 const char* complex_imag_string) {
-      beginrecord();
-      field(complex_real_string);
-      real(x.real());
-      field(complex_imag_string);
-      real(x.imag());
-      endrecord();
-    }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
+    void real(double x) { writereal(x, writer_); }
     void string(const char* x, int64_t length) {
       writer_.String(x, (rj::SizeType)length); }
     void beginlist() { writer_.StartArray(); }
@@ -243,7 +256,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
     const std::string tostring() {
@@ -286,6 +299,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonPrettyString::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonPrettyString::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -303,7 +321,12 @@ namespace awkward {
   void
   ToJsonPrettyString::complex(std::complex<double> x) {
     if (complex_real_string_ != nullptr  &&  complex_imag_string_ != nullptr) {
-      impl_->complex(x, complex_real_string_, complex_imag_string_);
+      beginrecord();
+      field(complex_real_string_);
+      real(x.real());
+      field(complex_imag_string_);
+      real(x.imag());
+      endrecord();
     }
     else {
       throw std::invalid_argument(
@@ -368,17 +391,8 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
-    void complex(std::complex<double> x,
-                 const char* complex_real_string,
-                 const char* complex_imag_string) {
-      beginrecord();
-      field(complex_real_string);
-      real(x.real());
-      field(complex_imag_string);
-      real(x.imag());
-      endrecord();
-    }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
+    void real(double x) { writereal(x, writer_); }
     void string(const char* x, int64_t length) {
       writer_.String(x, (rj::SizeType)length); }
     void beginlist() { writer_.StartArray(); }
@@ -388,13 +402,13 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
   private:
     std::shared_ptr<char> buffer_;
     rj::FileWriteStream stream_;
-    rj::Writer<rj::FileWriteStream> writer_ ;
+    rj::Writer<rj::FileWriteStream> writer_;
   };
 
   ToJsonFile::ToJsonFile(FILE* destination,
@@ -431,6 +445,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonFile::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonFile::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -448,7 +467,12 @@ namespace awkward {
   void
   ToJsonFile::complex(std::complex<double> x) {
     if (complex_real_string_ != nullptr  &&  complex_imag_string_ != nullptr) {
-      impl_->complex(x, complex_real_string_, complex_imag_string_);
+      beginrecord();
+      field(complex_real_string_);
+      real(x.real());
+      field(complex_imag_string_);
+      real(x.imag());
+      endrecord();
     }
     else {
       throw std::invalid_argument(
@@ -508,17 +532,8 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
-    void complex(std::complex<double> x,
-                 const char* complex_real_string,
-                 const char* complex_imag_string) {
-      beginrecord();
-      field(complex_real_string);
-      real(x.real());
-      field(complex_imag_string);
-      real(x.imag());
-      endrecord();
-    }
+    void unsigned_integer(uint64_t x) { writer_.Uint64(x); }
+    void real(double x) { writereal(x, writer_); }
     void string(const char* x, int64_t length) {
       writer_.String(x, (rj::SizeType)length); }
     void beginlist() { writer_.StartArray(); }
@@ -528,7 +543,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
   private:
@@ -573,6 +588,11 @@ namespace awkward {
     impl_->integer(x);
   }
 
+  void
+  ToJsonPrettyFile::unsigned_integer(uint64_t x) {
+    impl_->unsigned_integer(x);
+  }
+
   void
   ToJsonPrettyFile::real(double x) {
     if (nan_string_ != nullptr  &&  std::isnan(x)) {
@@ -590,7 +610,12 @@ namespace awkward {
   void
   ToJsonPrettyFile::complex(std::complex<double> x) {
     if (complex_real_string_ != nullptr  &&  complex_imag_string_ != nullptr) {
-      impl_->complex(x, complex_real_string_, complex_imag_string_);
+      beginrecord();
+      field(complex_real_string_);
+      real(x.real());
+      field(complex_imag_string_);
+      real(x.imag());
+      endrecord();
     }
     else {
       throw std::invalid_argument(
@@ -691,7 +716,12 @@ namespace awkward {
 
     bool Uint64(uint64_t x) {
       moved_ = true;
-      builder_.integer((int64_t)x);
+      if (x <= (uint64_t)std::numeric_limits<int64_t>::max()) {
+        builder_.integer((int64_t)x);
+      }
+      else {
+        builder_.real((double)x);
+      }
       return true;
     }
 
@@ -775,7 +805,9 @@ namespace awkward {
     int64_t number = 0;
     while (stream.Peek() != 0) {
       handler.reset_moved();
-      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag>(stream, handler);
+      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag
+                                       | rj::kParseFullPrecisionFlag
+                                       | rj::kParseNanAndInfFlag>(stream, handler);
       if (handler.moved()) {
         if (!fully_parsed) {
           if (stream.Peek() == 0) {
@@ -795,6 +827,12 @@ namespace awkward {
           number++;
         }
       }
+      else if (stream.Peek() == 0  &&
+               reader.GetParseErrorCode() != rj::kParseErrorDocumentEmpty) {
+        throw std::invalid_argument(
+            std::string("incomplete JSON object at the end of the stream")
+            + FILENAME(__LINE__));
+      }
       else if (stream.Peek() != 0) {
         throw std::invalid_argument(
           std::string("JSON File error at char ")
-- 
2.43.0


From aecc5d3e8e91b14c4f7efbb1e0852770e12ec43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:05 +0000
Subject: [PATCH 69/78] fix: datetimes go through buffers and pickles, empty
 bytes are accepted as buffers, and a deep copy of a partitioned array shares
 no memory

---
 src/awkward/operations/convert.py | 10 ++++++++--
 src/awkward/partition.py          |  7 +++----
 src/libawkward/Content.cpp        |  6 ++++++
 src/libawkward/util.cpp           |  4 ++--
 src/python/forms.cpp              |  4 +---
 5 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3b59079..3fb7839 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4296,9 +4296,13 @@ def to_buffers(
         elif isinstance(layout, ak.layout.NumpyArray):
             fk = form_key(id=str(key_index), layout=layout)
             key = key_format(form_key=fk, attribute="data", partition=str(part))
-            array = numpy.asarray(layout)
+            if layout.format.upper().startswith("M"):
+                array = numpy.asarray(layout.view_int64).view(layout.format)
+                form = layout.form
+            else:
+                array = numpy.asarray(layout)
+                form = ak.forms.Form.from_numpy(array.dtype)
             container[key] = little_endian(array)
-            form = ak.forms.Form.from_numpy(array.dtype)
             return ak.forms.NumpyForm(
                 layout.shape[1:],
                 form.itemsize,
@@ -4427,6 +4431,8 @@ _index_form_to_dtype = _index_form_to_index = _form_to_layout_class = None
 
 
 def _asbuf(obj):
+    if isinstance(obj, bytes):
+        return numpy.frombuffer(obj, np.uint8)
     try:
         tmp = numpy.asarray(obj)
     except Exception:
diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index d00d3fc..afefdee 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -418,10 +418,9 @@ class PartitionedArray(object):
         return sum(x.nbytes for x in self.partitions)
 
     def deep_copy(self, *args, **kwargs):
-        out = type(self).__new__(type(self))
-        out.__dict__.update(self.__dict__)
-        out._partitions = [x.deep_copy(*args, **kwargs) for x in out.partitions]
-        return out
+        return self.replace_partitions(
+            [x.deep_copy(*args, **kwargs) for x in self.partitions]
+        )
 
     @property
     def identity(self):
diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index ef4f449..9cf3017 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -310,6 +310,12 @@ namespace awkward {
           format = raw->format();
           itemsize = raw->itemsize();
           dtype = util::format_to_dtype(format, itemsize);
+          if ((dtype == util::dtype::datetime64  ||
+               dtype == util::dtype::timedelta64)  &&
+              json.HasMember("format")  &&  json["format"].IsString()) {
+            // the units are only in the format
+            format = json["format"].GetString();
+          }
         }
         else if (json.HasMember("format")  &&  json["format"].IsString()  &&
                  json.HasMember("itemsize")  &&  json["itemsize"].IsInt()) {
diff --git a/src/libawkward/util.cpp b/src/libawkward/util.cpp
index 0047d71..989cd86 100644
--- a/src/libawkward/util.cpp
+++ b/src/libawkward/util.cpp
@@ -211,10 +211,10 @@ namespace awkward {
       else if (fmt == std::string("Zg")) {
         return dtype::complex256;
       }
-      else if (fmt == std::string("M")) {
+      else if (fmt == std::string("M")  ||  fmt.rfind("M8", 0) == 0) {
         return dtype::datetime64;
       }
-      else if (fmt == std::string("m")) {
+      else if (fmt == std::string("m")  ||  fmt.rfind("m8", 0) == 0) {
         return dtype::timedelta64;
       }
       else {
diff --git a/src/python/forms.cpp b/src/python/forms.cpp
index 280f309..df83f13 100644
--- a/src/python/forms.cpp
+++ b/src/python/forms.cpp
@@ -514,10 +514,8 @@ make_NumpyForm(const py::handle& m, const std::string& name) {
           dt = "c32";
           break;
         case ak::util::dtype::datetime64:
-          dt = "?";
-          break;
         case ak::util::dtype::timedelta64:
-          dt = "?";
+          dt = self.format();
           break;
         default:
           // FIXME: record arrays; need to parse 'format'
-- 
2.43.0


From 2d9ecc5d612af9b8d0a21998a0475b0678e56dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:38 +0000
Subject: [PATCH 70/78] fix: types and forms survive printing: option and named
 record texts, nested regular dimensions, units of datetimes

---
 src/awkward/_typeparser/parser.py   | 13 ++++++-------
 src/libawkward/array/NumpyArray.cpp |  4 +++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/awkward/_typeparser/parser.py b/src/awkward/_typeparser/parser.py
index 402f3b5..4e6c1ff 100644
--- a/src/awkward/_typeparser/parser.py
+++ b/src/awkward/_typeparser/parser.py
@@ -180,7 +180,6 @@ def toast(ptnode, high_level, categorical):
             parameters=parms,
         )
     elif ptnode.data == "option_highlevel":
-        assert high_level
         parms = {}
         if categorical:
             parms.update({"__categorical__": True})
@@ -237,7 +236,6 @@ def toast(ptnode, high_level, categorical):
             parameters=parms,
         )
     elif ptnode.data == "record_highlevel":
-        assert high_level
         parms = {"__record__": ptnode.children[0]}
         if categorical:
             parms.update({"__categorical__": True})
@@ -259,10 +257,6 @@ def toast(ptnode, high_level, categorical):
         return toast(ptnode.children[0], high_level, categorical)
     elif ptnode.data == "regular_inparm":
         assert len(ptnode.children) == 2
-        if high_level:
-            return ak.types.ArrayType(
-                toast(ptnode.children[1], high_level, categorical), ptnode.children[0]
-            )
         return ak.types.RegularType(
             toast(ptnode.children[1], high_level, categorical), ptnode.children[0]
         )
@@ -289,4 +283,9 @@ def toast(ptnode, high_level, categorical):
 
 def from_datashape(typestr, high_level=False):
     parseobj = Lark_StandAlone(transformer=TreeToJson())
-    return toast(parseobj.parse(typestr), high_level, False)
+    out = toast(parseobj.parse(typestr), high_level, False)
+    if high_level and isinstance(out, ak.types.RegularType) and out.parameters == {}:
+        # only the outermost dimension is the length of an array
+        return ak.types.ArrayType(out.type, out.size)
+    else:
+        return out
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 725fb87..750435a 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -132,7 +132,9 @@ namespace awkward {
         !inner_shape_.empty() ||
         has_identities_  ||
         !parameters_.empty()  ||
-        form_key_.get() != nullptr) {
+        form_key_.get() != nullptr  ||
+        dtype_ == util::dtype::datetime64  ||
+        dtype_ == util::dtype::timedelta64) {
       builder.beginrecord();
       builder.field("class");
       builder.string("NumpyArray");
-- 
2.43.0


From de77e822f9a6c80cd0754a7c1ea40de5461c1b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:55 +0000
Subject: [PATCH 71/78] fix: from_buffers and unpickling keep the order of
 record fields

---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3fb7839..a32f5e3 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4753,7 +4753,7 @@ def _form_to_layout(
         return ak.layout.NumpyArray(array, identities, parameters)
 
     elif isinstance(form, ak.forms.RecordForm):
-        items = list(form.contents.items())
+        items = list(form.items())
         if form.istuple:
             items.sort(key=lambda x: int(x[0]))
         contents = []
-- 
2.43.0


From 96b06a1a883598fff23a2daeacbb0be7093e7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:55 +0000
Subject: [PATCH 72/78] fix: to_numpy of dates, optional record fields and
 unreachable ragged content; from_numpy of strided or empty strings

---
 src/awkward/operations/convert.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index a32f5e3..011d201 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -92,7 +92,7 @@ def from_numpy(
             array = array.reshape(1)
 
         if array.dtype.kind == "S":
-            asbytes = array.reshape(-1)
+            asbytes = numpy.ascontiguousarray(array.reshape(-1))
             itemsize = asbytes.dtype.itemsize
             starts = numpy.arange(0, len(asbytes) * itemsize, itemsize, dtype=np.int64)
             stops = starts + numpy.char.str_len(asbytes)
@@ -107,7 +107,9 @@ def from_numpy(
             for i in range(len(array.shape) - 1, 0, -1):
                 data = ak.layout.RegularArray(data, array.shape[i], array.shape[i - 1])
         elif array.dtype.kind == "U":
-            asbytes = numpy.char.encode(array.reshape(-1), "utf-8", "surrogateescape")
+            asbytes = numpy.char.encode(
+                array.reshape(-1), "utf-8", "surrogateescape"
+            ).astype("S")
             itemsize = asbytes.dtype.itemsize
             starts = numpy.arange(0, len(asbytes) * itemsize, itemsize, dtype=np.int64)
             stops = starts + numpy.char.str_len(asbytes)
@@ -232,12 +234,6 @@ def to_numpy(array, allow_missing=True):
             ]
         )
 
-    elif (
-        str(ak.operations.describe.type(array)) == "datetime64"
-        or str(ak.operations.describe.type(array)) == "timedelta64"
-    ):
-        return array
-
     elif isinstance(array, ak.partition.PartitionedArray):
         tocat = [to_numpy(x, allow_missing=allow_missing) for x in array.partitions]
         if any(isinstance(x, numpy.ma.MaskedArray) for x in tocat):
@@ -323,9 +319,11 @@ def to_numpy(array, allow_missing=True):
                 return content
 
     elif isinstance(array, ak.layout.RegularArray):
-        out = to_numpy(array.content, allow_missing=allow_missing)
+        out = to_numpy(
+            array.content[: len(array) * array.size], allow_missing=allow_missing
+        )
         shape = (len(array), array.size) + out.shape[1:]
-        return out[: shape[0] * array.size].reshape(shape)
+        return out.reshape(shape)
 
     elif isinstance(array, ak._util.listtypes):
         return to_numpy(array.toRegularArray(), allow_missing=allow_missing)
@@ -342,15 +340,19 @@ def to_numpy(array, allow_missing=True):
                 "cannot convert {0} into np.ndarray".format(array)
                 + ak._util.exception_suffix(__file__)
             )
-        out = numpy.empty(
-            len(contents[0]),
-            dtype=[(str(n), x.dtype) for n, x in zip(array.keys(), contents)],
-        )
+        dtype = [(str(n), x.dtype) for n, x in zip(array.keys(), contents)]
+        if any(isinstance(x, numpy.ma.MaskedArray) for x in contents):
+            out = numpy.ma.empty(len(contents[0]), dtype=dtype)
+        else:
+            out = numpy.empty(len(contents[0]), dtype=dtype)
         for n, x in zip(array.keys(), contents):
             out[n] = x
         return out
 
     elif isinstance(array, ak.layout.NumpyArray):
+        if array.format.upper().startswith("M"):
+            # datetime64 and timedelta64 can't go through the buffer protocol
+            return numpy.asarray(array.view_int64).view(array.format)
         out = ak.nplike.of(array).asarray(array)
         if type(out).__module__.startswith("cupy."):
             return out.get()
-- 
2.43.0


From 8f5c44a03117917950c4f094cbac07f03a9f33c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:55 +0000
Subject: [PATCH 73/78] fix: zip of string arrays keeps their depth; with_field
 keeps optional records whose new value is missing

---
 src/awkward/operations/structure.py | 54 ++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index a6cbfcc..11f8235 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -633,16 +633,7 @@ def zip(
 
     def getfunction(inputs, depth):
         if depth_limit == depth or (
-            depth_limit is None
-            and all(
-                x.purelist_depth == 1
-                or (
-                    x.purelist_depth == 2
-                    and x.purelist_parameter("__array__")
-                    in ("string", "bytestring", "categorical")
-                )
-                for x in inputs
-            )
+            depth_limit is None and all(x.purelist_depth == 1 for x in inputs)
         ):
             return lambda: (
                 ak.layout.RecordArray(inputs, recordlookup, parameters=parameters),
@@ -984,23 +975,46 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
                     parameters=base.parameters,
                 )
                 return lambda: (out,)
+            elif (
+                isinstance(base, ak._util.optiontypes)
+                and isinstance(what, ak._util.optiontypes)
+                and len(base) == len(what)
+            ):
+                # a missing value of the new field is not a missing record
+                is_valid = nplike.asarray(base.bytemask()) == 0
+                index = nplike.full(len(base), -1, np.int64)
+                index[is_valid] = nplike.arange(
+                    nplike.count_nonzero(is_valid), dtype=np.int64
+                )
+                present = ak.layout.NumpyArray(nplike.nonzero(is_valid)[0])
+                content = add_field([base.project(), what[present]])
+                return lambda: (
+                    ak.layout.IndexedOptionArray64(
+                        ak.layout.Index64(index),
+                        content,
+                        parameters=base.parameters,
+                    ).simplify(),
+                )
             else:
                 return None
 
-        out = ak._util.broadcast_and_apply(
-            [base, what],
-            getfunction,
-            behavior,
-            right_broadcast=False,
-            pass_depth=False,
-        )
+        def add_field(inputs):
+            out = ak._util.broadcast_and_apply(
+                inputs,
+                getfunction,
+                behavior,
+                right_broadcast=False,
+                pass_depth=False,
+            )
+            assert isinstance(out, tuple) and len(out) == 1
+            return out[0]
 
-        assert isinstance(out, tuple) and len(out) == 1
+        out = add_field([base, what])
 
         if highlevel:
-            return ak._util.wrap(out[0], behavior=behavior)
+            return ak._util.wrap(out, behavior=behavior)
         else:
-            return out[0]
+            return out
 
 
 def with_parameter(array, parameter, value, highlevel=True, behavior=None):
-- 
2.43.0


From e3be82e5c319660a4e92eef1eef9d19990d98442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:55 +0000
Subject: [PATCH 74/78] fix: inequality of bytestrings; categories that are
 records, lists or lazy

---
 src/awkward/behaviors/categorical.py | 14 +++++++++++---
 src/awkward/behaviors/string.py      |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/awkward/behaviors/categorical.py b/src/awkward/behaviors/categorical.py
index 892f4ab..2d4ffdc 100644
--- a/src/awkward/behaviors/categorical.py
+++ b/src/awkward/behaviors/categorical.py
@@ -18,7 +18,7 @@ class _HashableDict(object):
     def __init__(self, obj):
         self.keys = tuple(sorted(obj))
         self.values = tuple(_hashable(obj[k]) for k in self.keys)
-        self.hash = hash((_HashableDict,) + self.keys, self.values)
+        self.hash = hash((_HashableDict,) + self.keys + self.values)
 
     def __hash__(self):
         return self.hash
@@ -33,7 +33,7 @@ class _HashableDict(object):
 
 class _HashableList(object):
     def __init__(self, obj):
-        self.values = tuple(obj)
+        self.values = tuple(_hashable(x) for x in obj)
         self.hash = hash((_HashableList,) + self.values)
 
     def __hash__(self):
@@ -238,6 +238,8 @@ def to_categorical(array, highlevel=True):
 
     def getfunction(layout):
         if layout.purelist_depth == 1:
+            while isinstance(layout, ak._util.virtualtypes):
+                layout = layout.array
             if isinstance(layout, ak._util.optiontypes):
                 layout = layout.simplify()
 
@@ -288,7 +290,13 @@ def to_categorical(array, highlevel=True):
             else:
                 index = ak.layout.Index64(mapping)
 
-            out = cls(index, content[is_first], parameters={"__array__": "categorical"})
+            content = content[is_first]
+            while isinstance(content, ak._util.virtualtypes):
+                content = content.array
+            if isinstance(content, ak._util.indexedtypes):
+                content = content.project()
+
+            out = cls(index, content, parameters={"__array__": "categorical"})
             return lambda: out
 
         else:
diff --git a/src/awkward/behaviors/string.py b/src/awkward/behaviors/string.py
index b00b8e7..cc40509 100644
--- a/src/awkward/behaviors/string.py
+++ b/src/awkward/behaviors/string.py
@@ -34,7 +34,7 @@ class ByteBehavior(ak.highlevel.Array):
             return False
 
     def __ne__(self, other):
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
 
     def __add__(self, other):
         if isinstance(other, (bytes, ByteBehavior)):
-- 
2.43.0


From ab8ee449ffc95704444017762dadd5bc442c7c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:55 +0000
Subject: [PATCH 75/78] fix: LayoutBuilder: input buffer overflow, record
 fields filled in the wrong order, ListArray, RegularArray and Union forms,
 ignored Forth errors

---
 .../layoutbuilder/LayoutBuilder.cpp           | 25 ++++++++++-------
 .../layoutbuilder/ListArrayBuilder.cpp        | 13 +++------
 .../layoutbuilder/RecordArrayBuilder.cpp      | 28 ++++++++++++++-----
 .../layoutbuilder/RegularArrayBuilder.cpp     | 11 ++++++--
 .../layoutbuilder/UnionArrayBuilder.cpp       | 12 ++++----
 5 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/src/libawkward/layoutbuilder/LayoutBuilder.cpp b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
index 0a837c8..fa8ea7d 100644
--- a/src/libawkward/layoutbuilder/LayoutBuilder.cpp
+++ b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
@@ -2,6 +2,8 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/layoutbuilder/LayoutBuilder.cpp", line)
 
+#include <algorithm>
+
 #include "awkward/layoutbuilder/LayoutBuilder.h"
 #include "awkward/builder/ArrayBuilderOptions.h"
 #include "awkward/type/Type.h"
@@ -247,9 +249,10 @@ namespace awkward {
       vm_ = vm;
 
       std::shared_ptr<void> ptr(
-        kernel::malloc<void>(kernel::lib::cpu, 8*sizeof(uint8_t)));
+        kernel::malloc<void>(kernel::lib::cpu, sizeof(std::complex<double>)));
 
-      vm_inputs_map_[vm_input_data_] = std::make_shared<ForthInputBuffer>(ptr, 0, 8);
+      vm_inputs_map_[vm_input_data_] = std::make_shared<ForthInputBuffer>(
+        ptr, 0, (int64_t)sizeof(std::complex<double>));
       vm_.get()->run(vm_inputs_map_);
     }
     else {
@@ -263,10 +266,12 @@ namespace awkward {
   LayoutBuilder::initialise() {
     vm_ = std::make_shared<ForthMachine32>(vm_source());
 
+    // the input holds one value at a time, of up to the largest type
+    int64_t input_size = std::max(initial_, (int64_t)sizeof(std::complex<double>));
     std::shared_ptr<void> ptr(
-      kernel::malloc<void>(kernel::lib::cpu, initial_*(int64_t)sizeof(uint8_t)));
+      kernel::malloc<void>(kernel::lib::cpu, input_size*(int64_t)sizeof(uint8_t)));
 
-    vm_inputs_map_[vm_input_data_] = std::make_shared<ForthInputBuffer>(ptr, 0, initial_);
+    vm_inputs_map_[vm_input_data_] = std::make_shared<ForthInputBuffer>(ptr, 0, input_size);
     vm_.get()->run(vm_inputs_map_);
   }
 
@@ -473,9 +478,9 @@ namespace awkward {
   template<>
   void
   LayoutBuilder::add<const std::string&>(const std::string& x) {
-    begin_list();
+    add_begin_list();
     string(x.c_str(), (int64_t)x.length());
-    end_list();
+    add_end_list();
   }
 
   void
@@ -486,7 +491,7 @@ namespace awkward {
   void
   LayoutBuilder::add_begin_list() {
     vm_.get()->stack_push(static_cast<utype>(state::begin_list));
-    vm_.get()->resume();
+    resume();
   }
 
   void
@@ -497,21 +502,21 @@ namespace awkward {
   void
   LayoutBuilder::add_end_list() {
     vm_.get()->stack_push(static_cast<utype>(state::end_list));
-    vm_.get()->resume();
+    resume();
   }
 
   void
   LayoutBuilder::index(int64_t x) {
     vm_.get()->stack_push((int32_t)x);
     vm_.get()->stack_push(static_cast<utype>(state::index));
-    vm_.get()->resume();
+    resume();
   }
 
   void
   LayoutBuilder::tag(int8_t x) {
     set_data<int8_t>(x);
     vm_.get()->stack_push(static_cast<utype>(state::tag));
-    vm_.get()->resume();
+    resume();
   }
 
 }
diff --git a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
index 86efc4d..df581da 100644
--- a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
@@ -62,7 +62,7 @@ namespace awkward {
       .append("0 ").append(vm_output_data_).append(" <- stack").append("\n");
 
     vm_error_.append(content_.get()->vm_error());
-    vm_error_.append("s\"ListArray Builder needs begin_list\"").append("\n");
+    vm_error_.append("s\" ListArray Builder needs begin_list\"").append("\n");
  }
 
   const std::string
@@ -184,16 +184,11 @@ namespace awkward {
   void
   ListArrayBuilder::begin_list(LayoutBuilder* builder) {
     if (!begun_) {
-      throw std::invalid_argument(
-        std::string("called 'end_list' without 'begin_list' at the same level before it")
-        + FILENAME(__LINE__));
-    }
-    else if (!content_.get()->active()) {
-      builder->add_end_list();
-      begun_ = false;
+      begun_ = true;
+      builder->add_begin_list();
     }
     else {
-      content_.get()->end_list(builder);
+      content_.get()->begin_list(builder);
     }
   }
 
diff --git a/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp b/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
index afdadf5..91b8a28 100644
--- a/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
@@ -102,8 +102,14 @@ namespace awkward {
 
   int64_t
   RecordArrayBuilder::field_index() {
-    return (field_index_ < contents_size_ - 1) ?
-      field_index_++ : (field_index_ = 0);
+    // everything between begin_list and end_list belongs to the field
+    // that is being filled with a list
+    if (!list_field_index_.empty()) {
+      return list_field_index_.back();
+    }
+    int64_t out = field_index_;
+    field_index_ = (field_index_ < contents_size_ - 1) ? field_index_ + 1 : 0;
+    return out;
   }
 
   void
@@ -138,16 +144,24 @@ namespace awkward {
 
   void
   RecordArrayBuilder::begin_list(LayoutBuilder* builder) {
-    list_field_index_.emplace_back(field_index_);
-    contents_[(size_t)field_index_].get()->begin_list(builder);
+    int64_t at = list_field_index_.empty() ? field_index_
+                                           : list_field_index_.back();
+    contents_[(size_t)at].get()->begin_list(builder);
+    list_field_index_.emplace_back(at);
   }
 
   void
   RecordArrayBuilder::end_list(LayoutBuilder* builder) {
-    field_index_ = list_field_index_.back();
-    contents_[(size_t)field_index_].get()->end_list(builder);
+    if (list_field_index_.empty()) {
+      throw std::invalid_argument(
+        std::string("called 'end_list' without 'begin_list' at the same level before it")
+        + FILENAME(__LINE__));
+    }
+    contents_[(size_t)list_field_index_.back()].get()->end_list(builder);
     list_field_index_.pop_back();
-    field_index();
+    if (list_field_index_.empty()) {
+      field_index();
+    }
   }
 
   bool
diff --git a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
index 2f925cf..4c56dc1 100644
--- a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
@@ -30,9 +30,14 @@ namespace awkward {
     vm_func_name_ = std::string(*form_key_).append("-").append(attribute_);
 
     vm_func_.append(content_.get()->vm_func())
-      .append(": ").append(vm_func_name()).append("\n")
-      .append(content_.get()->vm_func_name()).append("\n")
-      .append(";").append("\n");
+      .append(": ").append(vm_func_name()).append("\n");
+    for (int64_t i = 0;  i < form.get()->size();  i++) {
+      if (i != 0) {
+        vm_func_.append("pause").append("\n");
+      }
+      vm_func_.append(content_.get()->vm_func_name()).append("\n");
+    }
+    vm_func_.append(";").append("\n");
 
     vm_error_.append(content_.get()->vm_error());
   }
diff --git a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
index 416a5b0..91e47a2 100644
--- a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
@@ -108,13 +108,13 @@ namespace awkward {
       int64_t lentags = tags.length();
 
       if (form_.get()->index() == Index::Form::i32) {
-        Index32 current(lentags);
+        Index32 current((int64_t)contents.size());
         Index32 outindex(lentags);
         struct Error err = kernel::UnionArray_regular_index<int8_t, int32_t>(
           kernel::lib::cpu,   // DERIVE
           outindex.data(),
           current.data(),
-          lentags,
+          (int64_t)contents.size(),
           tags.data(),
           lentags);
         util::handle_error(err, "UnionArray", nullptr);
@@ -127,13 +127,13 @@ namespace awkward {
 
       }
       else if (form_.get()->index() == Index::Form::u32) {
-        IndexU32 current(lentags);
+        IndexU32 current((int64_t)contents.size());
         IndexU32 outindex(lentags);
         struct Error err = kernel::UnionArray_regular_index<int8_t, uint32_t>(
           kernel::lib::cpu,   // DERIVE
           outindex.data(),
           current.data(),
-          lentags,
+          (int64_t)contents.size(),
           tags.data(),
           lentags);
         util::handle_error(err, "UnionArray", nullptr);
@@ -145,13 +145,13 @@ namespace awkward {
                                contents).simplify_uniontype(false, false);
       }
       else if (form_.get()->index() == Index::Form::i64) {
-        Index64 current(lentags);
+        Index64 current((int64_t)contents.size());
         Index64 outindex(lentags);
         struct Error err = kernel::UnionArray_regular_index<int8_t, int64_t>(
           kernel::lib::cpu,   // DERIVE
           outindex.data(),
           current.data(),
-          lentags,
+          (int64_t)contents.size(),
           tags.data(),
           lentags);
         util::handle_error(err, "UnionArray", nullptr);
-- 
2.43.0


From 678c85b6012eed9227d9d013759470b44d870cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 76/78] fix: from_arrow: missing values of sliced structs and
 sliced dictionaries

---
 src/awkward/operations/convert.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 011d201..f4a0326 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2632,6 +2632,13 @@ def _from_arrow(
                     True,
                     parameters={"__array__": "categorical"},
                 ).simplify()
+            elif isinstance(index, ak.layout.ByteMaskedArray):
+                return ak.layout.ByteMaskedArray(
+                    index.mask,
+                    out,
+                    index.valid_when,
+                    parameters={"__array__": "categorical"},
+                ).simplify()
             else:
                 return out
             # RETURNED because 'index' has already been offset-corrected.
@@ -2666,8 +2673,16 @@ def _from_arrow(
 
             out = ak.layout.RecordArray(child_arrays, keys, length=len(array))
             if mask is not None:
-                mask = ak.layout.IndexU8(numpy.frombuffer(mask, dtype=np.uint8))
-                return ak.layout.BitMaskedArray(mask, out, True, len(out), True)
+                mask = numpy.frombuffer(mask, dtype=np.uint8)
+                if array.offset == 0:
+                    mask = ak.layout.IndexU8(mask)
+                    return ak.layout.BitMaskedArray(mask, out, True, len(out), True)
+                else:
+                    # fields have been offset-corrected, but the mask has not
+                    mask = numpy.unpackbits(mask).reshape(-1, 8)[:, ::-1].reshape(-1)
+                    mask = mask[array.offset : array.offset + len(array)]
+                    mask = ak.layout.Index8(mask.astype(np.int8))
+                    return ak.layout.ByteMaskedArray(mask, out, True)
             else:
                 return ak.layout.UnmaskedArray(out)
             # RETURNED because each field has already been offset-corrected.
-- 
2.43.0


From 962629d0de4cd49c86be70b067c36a2f3344aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:19 +0000
Subject: [PATCH 77/78] fix: Numba: bit masks of sliced views, field order of
 record forms, boxing of short bit masks

---
 src/awkward/_connect/_numba/layout.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/awkward/_connect/_numba/layout.py b/src/awkward/_connect/_numba/layout.py
index 4ba773c..233632b 100644
--- a/src/awkward/_connect/_numba/layout.py
+++ b/src/awkward/_connect/_numba/layout.py
@@ -1611,7 +1611,7 @@ class BitMaskedArrayType(ContentType):
             mask,
             content,
             self.valid_when,
-            len(content),
+            min(len(content), 8 * len(mask)),
             self.lsb_order,
             parameters=self.parameters,
         )
@@ -1642,18 +1642,18 @@ class BitMaskedArrayType(ContentType):
         atval = regularize_atval(
             context, builder, viewproxy, attype, atval, wrapneg, checkbounds
         )
-        bitatval = builder.sdiv(atval, context.get_constant(numba.intp, 8))
+        maskatval = builder.add(viewproxy.start, atval)
+        maskarraypos = builder.sdiv(maskatval, context.get_constant(numba.intp, 8))
         shiftval = ak._connect._numba.castint(
             context,
             builder,
             numba.intp,
             numba.uint8,
-            builder.srem(atval, context.get_constant(numba.intp, 8)),
+            builder.srem(maskatval, context.get_constant(numba.intp, 8)),
         )
 
         maskpos = posat(context, builder, viewproxy.pos, self.MASK)
         maskptr = getat(context, builder, viewproxy.arrayptrs, maskpos)
-        maskarraypos = builder.add(viewproxy.start, bitatval)
         byte = getat(
             context, builder, maskptr, maskarraypos, rettype=self.masktype.dtype
         )
@@ -1889,14 +1889,14 @@ class RecordArrayType(ContentType):
         positions.extend([None] * form.numfields)
         sharedptrs.extend([None] * form.numfields)
         if form.istuple:
-            for i, (_, content) in enumerate(form.contents.items()):
+            for i, (_, content) in enumerate(form.items()):
                 positions[
                     pos + cls.CONTENTS + i
                 ] = ak._connect._numba.arrayview.tolookup(
                     content, positions, sharedptrs, arrays
                 )
         else:
-            for i, (_, content) in enumerate(form.contents.items()):
+            for i, (_, content) in enumerate(form.items()):
                 positions[
                     pos + cls.CONTENTS + i
                 ] = ak._connect._numba.arrayview.tolookup(
@@ -1909,11 +1909,11 @@ class RecordArrayType(ContentType):
         contents = []
         if form.istuple:
             recordlookup = None
-            for x in form.contents.values():
+            for _, x in form.items():
                 contents.append(ak._connect._numba.arrayview.tonumbatype(x))
         else:
             recordlookup = []
-            for n, x in form.contents.items():
+            for n, x in form.items():
                 contents.append(ak._connect._numba.arrayview.tonumbatype(x))
                 recordlookup.append(n)
 
-- 
2.43.0


From e47a5883abc64f7808000626b60e90150929b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:27 +0000
Subject: [PATCH 78/78] fix: to_arrow of optional fields in optional records
 whose masks have different padded lengths

---
 src/awkward/operations/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index f4a0326..6347c91 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -2446,7 +2446,8 @@ def to_arrow(
                 if mask is None:
                     return recurse(next, this_bitmask, True)
                 else:
-                    return recurse(next, mask & this_bitmask, True)
+                    length = min(len(mask), len(this_bitmask))
+                    return recurse(next, mask[:length] & this_bitmask[:length], True)
 
         elif isinstance(layout, ak.layout.BitMaskedArray):
             bitmask = numpy.asarray(layout.mask, dtype=np.uint8)
-- 
2.43.0

