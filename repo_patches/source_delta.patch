From 7b72af5fff53f11a5f9e65270292f7b5ffe35606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 001/167] fix: vec move assignment left the dimensions of the
 moved-from vector unchanged

---
 include/vif/core/vec.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..cc383a0 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -145,8 +145,11 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
-            data = std::move(v.data);
-            dims = std::move(v.dims);
+            if (this != &v) {
+                data = std::move(v.data);
+                dims = v.dims;
+                v.clear();
+            }
             return *this;
         }
 
-- 
2.43.0


From d6f2902dc3f3c456ac9122435fb800280d36d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 002/167] fix: aliasing between a vector and a constant view of
 it was not detected

---
 include/vif/core/vec.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index cc383a0..76a4dd1 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -194,8 +194,8 @@ namespace vif {
             return false;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        template<std::size_t D, typename T>
+        bool view_same(const vec<D,T*>& v) const {
             return v.view_same(*this);
         }
 
@@ -801,19 +801,14 @@ namespace vif {
 
         template<std::size_t D, typename T>
         bool view_same(const vec<D,T>& v) const {
-            return false;
+            return static_cast<const void*>(&v) == parent;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        template<std::size_t D, typename T>
+        bool view_same(const vec<D,T*>& v) const {
             return v.parent == parent;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
-        }
-
         bool empty() const {
             return data.empty();
         }
-- 
2.43.0


From eafd1542c57c73751e39fe2be4adb85c8ced6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 003/167] fix: a range view of a view did not remember the
 viewed vector, hiding aliasing

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..f14e920 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -643,7 +643,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From 2cc13b79867be1ae6ac05c381b56c7968198e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 004/167] fix: shift of an empty vector divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..29d836e 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,6 +12,8 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
+        if (v.empty()) return;
+
         n = (-n) % int_t(v.size());
         if (n < 0) n = int_t(v.size())+n;
 
-- 
2.43.0


From c3cf2424d5eca5cd68381ce93db028c4faa68013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 005/167] fix: replicate of an empty vector divided by zero

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 29d836e..c183d0a 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -55,6 +55,8 @@ namespace vif {
         static const std::size_t FDim = Dim+meta::dim_total<Args...>::value;
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
+        if (t.empty()) return v;
+
         std::size_t pitch = t.size();
         std::size_t n = v.size()/pitch;
         for (uint_t i : range(n))
-- 
2.43.0


From b0d7a700ccab1e2ba3632a8c8b8d3c3c596e9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 006/167] fix: is_sorted read out of bounds on empty vectors
 and refused equal values

---
 include/vif/utility/bits/generic-rearrange.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index c183d0a..772d5ef 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -112,8 +112,8 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
-        for (uint_t i : range(1, v.size())) {
-            if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
+        for (uint_t i = 1; i < v.size(); ++i) {
+            if (typename vec<Dim,Type>::comparator_less()(v.safe[i], v.safe[i-1])) return false;
         }
 
         return true;
-- 
2.43.0


From b039a0f2493399161f8f8983e8d8471f6b75fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 007/167] fix: remove missed out of bounds indices of
 multidimensional vectors and some duplicates

---
 include/vif/utility/bits/generic-rearrange.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 772d5ef..5ddaa8c 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -126,7 +126,7 @@ namespace vif {
 
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
+        uint_t osize = v.dims[0];
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
@@ -136,11 +136,9 @@ namespace vif {
 
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
-                i0 = ids.safe[ids.size()-1-i];
+                vif_check(i0 != ids.safe[ids.size()-1-i], "remove indices contain duplicates");
 
-                vif_check(i0 != i1, "remove indices contain duplicates");
-                vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
-                    "dimensions ", v.dims);
+                i0 = ids.safe[ids.size()-1-i];
 
                 ++i;
             }
-- 
2.43.0


From 9f1b0dc23ff83083d37583c570d53544936170ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 008/167] fix: append and prepend accepted incompatible
 dimensions

---
 include/vif/utility/bits/generic-rearrange.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 5ddaa8c..1ba49a4 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -167,8 +167,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot append dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
@@ -190,8 +192,10 @@ namespace vif {
         if (t2.empty()) return;
 
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
-        vif_check(t1.size()/n1 == t2.size()/n2, "cannot prepend dimension ", N, " in (", t1.dims,
-            ") and (", t2.dims, ")");
+        for (uint_t i : range(Dim)) {
+            vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
+                t1.dims, ") and (", t2.dims, ")");
+        }
 
         // TODO: (optimization) no need for this copy?
         auto tmp = t1;
-- 
2.43.0


From 6f8ae38bec04338cb3d4a2ba002d492ad9a665fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 009/167] fix: appending or prepending a vector to itself read
 invalid memory

---
 .../vif/utility/bits/generic-rearrange.hpp    | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 1ba49a4..6c43249 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -156,6 +156,15 @@ namespace vif {
         return v;
     }
 
+    namespace impl {
+        // Check if 't2' is 't1' itself, or a view of 't1'
+        template<std::size_t Dim, typename Type1, typename Type2>
+        bool is_aliased_(const vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
+            return static_cast<const void*>(&t1) == static_cast<const void*>(&t2) ||
+                t2.view_same(t1);
+        }
+    }
+
     template<std::size_t N, std::size_t Dim, typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<(N < Dim) && !std::is_pointer<Type1>::value>::type>
     void append(vec<Dim,Type1>& t1, const vec<Dim,Type2>& t2) {
@@ -166,6 +175,11 @@ namespace vif {
 
         if (t2.empty()) return;
 
+        if (impl::is_aliased_(t1, t2)) {
+            append<N>(t1, vec<Dim,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
         for (uint_t i : range(Dim)) {
             vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot append dimension ", N, " in (",
@@ -191,6 +205,11 @@ namespace vif {
 
         if (t2.empty()) return;
 
+        if (impl::is_aliased_(t1, t2)) {
+            prepend<N>(t1, vec<Dim,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         std::size_t n1 = t1.dims[N], n2 = t2.dims[N];
         for (uint_t i : range(Dim)) {
             vif_check(i == N || t1.dims[i] == t2.dims[i], "cannot prepend dimension ", N, " in (",
@@ -209,6 +228,11 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void append(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (impl::is_aliased_(t1, t2)) {
+            append(t1, vec<1,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         t1.data.insert(t1.data.end(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
@@ -216,6 +240,11 @@ namespace vif {
     template<typename Type1, typename Type2 = Type1,
         typename enable = typename std::enable_if<!std::is_pointer<Type1>::value>::type>
     void prepend(vec<1,Type1>& t1, const vec<1,Type2>& t2) {
+        if (impl::is_aliased_(t1, t2)) {
+            prepend(t1, vec<1,meta::rtype_t<Type2>>(t2));
+            return;
+        }
+
         t1.data.insert(t1.data.begin(), t2.begin(), t2.end());
         t1.dims[0] += t2.dims[0];
     }
-- 
2.43.0


From f3cce86b9db58489452214397ebc49765f095251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 010/167] fix: match of 64 values or more lost repeated values,
 reordered the matches and paired NaN

---
 include/vif/utility/bits/generic-find.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index 99e4769..a52c2ac 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -222,22 +222,16 @@ namespace vif {
             id1.dims[0] = id1.data.size();
             id2.dims[0] = id2.data.size();
         } else {
-            // Sort the two vectors and traverse
-            vec1u ids1 = sort(v1);
+            // Sort the second vector and use binary search
             vec1u ids2 = sort(v2);
 
-            uint_t i1 = 0, i2 = 0;
-            while (i1 < n1 && i2 < n2) {
-                auto tv1 = v1.safe[ids1.safe[i1]];
-                auto tv2 = v2.safe[ids2.safe[i2]];
-                if (tv1 < tv2) {
-                    ++i1;
-                } else if (tv1 > tv2) {
-                    ++i2;
-                } else {
-                    id1.data.push_back(ids1.safe[i1]);
-                    id2.data.push_back(ids2.safe[i2]);
-                    ++i1; ++i2;
+            for (uint_t i : range(n1)) {
+                auto tv1 = v1.safe[i];
+                auto iter = std::lower_bound(ids2.begin(), ids2.end(), tv1,
+                    [&](uint_t j, const decltype(tv1)& t) { return v2.safe[j] < t; });
+                if (iter != ids2.end() && v2.safe[*iter] == tv1) {
+                    id1.data.push_back(i);
+                    id2.data.push_back(*iter);
                 }
             }
 
-- 
2.43.0


From e200b61a87ecdf9aebb795676a5f20e6fe547f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 011/167] fix: compound assignment of a vector with one of its
 own elements used the modified element

---
 include/vif/core/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 76a4dd1..71036bf 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -592,7 +592,7 @@ namespace vif {
             template<typename U, typename enable = typename std::enable_if< \
                 meta::is_scalar<U>::value \
             >::type> \
-            vec& operator op (const U& u) { \
+            vec& operator op (U u) { \
                 for (auto& v : data) { \
                     v op u; \
                 } \
-- 
2.43.0


From 42e166ab9f1b74c7b942ac52e6f2daea18a5d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:46 +0000
Subject: [PATCH 012/167] fix: negative indices in index vectors were rejected
 by operator()

---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f14e920..87ace69 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -422,7 +422,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -457,7 +457,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -542,7 +542,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From 30282b66041e72fb04a0909ee8a2f86520780879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:46 +0000
Subject: [PATCH 013/167] fix: out of bounds read while reporting an out of
 bounds index

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 87ace69..66b6a09 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -298,7 +298,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From fadc4030fd967414399f24c4df20c01f119c1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:46 +0000
Subject: [PATCH 014/167] fix: out of bounds or reversed ranges produced views
 with invalid dimensions

---
 include/vif/core/range.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/core/range.hpp b/include/vif/core/range.hpp
index f354349..fa8db7a 100644
--- a/include/vif/core/range.hpp
+++ b/include/vif/core/range.hpp
@@ -154,18 +154,23 @@ namespace impl {
         inline void check_bounds(const left_right_range_t& rng, uint_t size) {
             check_upper_bounds(rng, size);
             check_lower_bounds(rng, size);
+            vif_check(rng.first <= rng.last+1, "lower bound of range goes past the "
+                "upper bound (", rng.first, " vs. ", rng.last, ")");
         }
 
         inline uint_t range_size(full_range_t, uint_t size) {
             return size;
         }
         inline uint_t range_size(left_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return rng.last+1;
         }
         inline uint_t range_size(right_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return size - rng.first;
         }
         inline uint_t range_size(left_right_range_t rng, uint_t size) {
+            check_bounds(rng, size);
             return (rng.last+1) - rng.first;
         }
     }
-- 
2.43.0


From f2273d4951098c821dc2c469090bec1d013fbcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:59 +0000
Subject: [PATCH 015/167] fix: negative indices of a small integer type
 overflowed with large vectors

---
 include/vif/core/bits/access.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 66b6a09..c634ae1 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -288,8 +288,9 @@ namespace vec_access {
     }
 
     template<typename T>
-    uint_t to_idx_(uint_t size, T i, meta::cte_t<true>) {
-        vif_check(size > 0, "operator[]: index out of bounds (", i, " vs. ", size, ")");
+    uint_t to_idx_(uint_t size, T si, meta::cte_t<true>) {
+        vif_check(size > 0, "operator[]: index out of bounds (", si, " vs. ", size, ")");
+        int_t i = si;
         while (i < 0) i += size;
         uint_t ui(i);
         vif_check(ui < size, "operator[]: index out of bounds (", ui, " vs. ", size, ")");
@@ -303,8 +304,9 @@ namespace vec_access {
     }
 
     template<std::size_t I, std::size_t D, typename T>
-    uint_t to_idx_(std::array<uint_t,D> dims, T i, meta::cte_t<true>) {
-        vif_check(dims[I] > 0, "operator[]: index out of bounds (", i, " vs. ", dims[I], ")");
+    uint_t to_idx_(std::array<uint_t,D> dims, T si, meta::cte_t<true>) {
+        vif_check(dims[I] > 0, "operator[]: index out of bounds (", si, " vs. ", dims[I], ")");
+        int_t i = si;
         while (i < 0) i += dims[I];
         uint_t ui(i);
         vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
-- 
2.43.0


From d3c4aac6bafecc93f9e2bc47283eb12a7623093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:34 +0000
Subject: [PATCH 016/167] fix: v(i) on a constant 1D vector of booleans
 returned a dangling reference

---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index c634ae1..17fe4db 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -635,7 +635,7 @@ namespace vec_access {
 
         // Access function
         static type access(itype& v, const T& i) {
-            return v.safe[to_idx(v, i)];
+            return reinterpret_cast<type>(v.safe[to_idx(v, i)]);
         }
     };
 
-- 
2.43.0


From 6d3a32d57bc6c67b669b0a8dc05b70f817ef0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:03 +0000
Subject: [PATCH 017/167] fix: elements of initializer lists starting with an
 empty list were silently dropped

---
 include/vif/core/bits/initializer_list.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/vif/core/bits/initializer_list.hpp b/include/vif/core/bits/initializer_list.hpp
index a73f74b..22978ba 100644
--- a/include/vif/core/bits/initializer_list.hpp
+++ b/include/vif/core/bits/initializer_list.hpp
@@ -47,10 +47,26 @@ namespace vec_ilist {
             }
         }
 
+        static uint_t count_(meta::nested_initializer_list<1,dtype> il, meta::cte_t<Dim-1>) {
+            return il.size();
+        }
+
+        template<std::size_t N, typename enable = typename std::enable_if<N != Dim-1>::type>
+        static uint_t count_(meta::nested_initializer_list<Dim-N,dtype> il, meta::cte_t<N>) {
+            uint_t n = 0;
+            for (auto& t : il) {
+                n += count_(t, meta::cte_t<N+1>());
+            }
+            return n;
+        }
+
         static void fill(vec<Dim,Type>& v, meta::nested_initializer_list<Dim,dtype> il) {
             set_dim_(v, il, meta::cte_t<0>());
             v.resize();
-            if (!v.empty()) {
+            if (v.empty()) {
+                vif_check(count_(il, meta::cte_t<0>()) == 0,
+                    "heterogeneous intializer lists are not allowed");
+            } else {
                 uint_t idx = 0;
                 fill_(v, il, idx, meta::cte_t<0>());
             }
-- 
2.43.0


From 06c8e948d063facf6f56f37113302de362c899af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:55 +0000
Subject: [PATCH 018/167] fix: converting a vector to booleans stored values
 other than 0 and 1

---
 include/vif/core/vec.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 71036bf..d5ebe5a 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -126,10 +126,9 @@ namespace vif {
         explicit vec(const vec<Dim,T>& v) : dims(v.dims), safe(*this) {
             static_assert(meta::vec_explicit_convertible<meta::rtype_t<T>,Type>::value,
                 "could not construct vector from non-convertible type");
-            using other_dtype = typename vec<Dim,T>::dtype;
             data.resize(v.data.size());
             for (uint_t i : range(v)) {
-                data[i] = static_cast<other_dtype>(v.safe[i]);
+                data[i] = static_cast<Type>(v.safe[i]);
             }
         }
 
-- 
2.43.0


From aff4fb01f9086bc615be111217e8d53d4eb103d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:20 +0000
Subject: [PATCH 019/167] fix: searches with values of another numeric type
 truncated them to the type of the vector

---
 include/vif/core/bits/helpers.hpp | 54 +++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/include/vif/core/bits/helpers.hpp b/include/vif/core/bits/helpers.hpp
index d83ae35..1b65b01 100644
--- a/include/vif/core/bits/helpers.hpp
+++ b/include/vif/core/bits/helpers.hpp
@@ -389,6 +389,32 @@ namespace meta {
 
 namespace impl {
 namespace meta_impl {
+    // Compare numbers of different types, without truncating one to the type of the other
+    template<typename U, typename V>
+    bool mixed_less_(const U& t1, const V& t2, std::false_type) {
+        using C = typename std::common_type<U,V>::type;
+        return static_cast<C>(t1) < static_cast<C>(t2);
+    }
+
+    // Specialization for integers of different signedness
+    template<typename U, typename V>
+    bool mixed_less_(const U& t1, const V& t2, std::true_type) {
+        if (t1 < static_cast<U>(0)) return true;
+        if (t2 < static_cast<V>(0)) return false;
+        return mixed_less_(t1, t2, std::false_type{});
+    }
+
+    template<typename U, typename V>
+    bool mixed_less_(const U& t1, const V& t2) {
+        return mixed_less_(t1, t2, std::integral_constant<bool,
+            std::is_integral<U>::value && std::is_integral<V>::value &&
+            std::is_signed<U>::value != std::is_signed<V>::value>{});
+    }
+
+    template<typename U, typename V>
+    using enable_mixed_compare_ = typename std::enable_if<std::is_arithmetic<U>::value &&
+        std::is_arithmetic<V>::value && !std::is_same<U,V>::value>::type;
+
     template<typename T, bool hasNaN>
     struct strict_comparator_less_;
 
@@ -397,6 +423,13 @@ namespace meta_impl {
         bool operator() (const T& t1, const T& t2) {
             return t1 < t2;
         }
+
+        template<typename U, typename V, typename enable = enable_mixed_compare_<U,V>>
+        bool operator() (const U& t1, const V& t2) {
+            if (t1 != t1) return false;
+            if (t2 != t2) return true;
+            return mixed_less_(t1, t2);
+        }
     };
 
     template<typename T>
@@ -406,6 +439,13 @@ namespace meta_impl {
             if (std::isnan(t2)) return true;
             return t1 < t2;
         }
+
+        template<typename U, typename V, typename enable = enable_mixed_compare_<U,V>>
+        bool operator() (const U& t1, const V& t2) {
+            if (t1 != t1) return false;
+            if (t2 != t2) return true;
+            return mixed_less_(t1, t2);
+        }
     };
 
     template<typename T, bool hasNaN>
@@ -416,6 +456,13 @@ namespace meta_impl {
         bool operator() (const T& t1, const T& t2) {
             return t1 > t2;
         }
+
+        template<typename U, typename V, typename enable = enable_mixed_compare_<U,V>>
+        bool operator() (const U& t1, const V& t2) {
+            if (t1 != t1) return false;
+            if (t2 != t2) return true;
+            return mixed_less_(t2, t1);
+        }
     };
 
     template<typename T>
@@ -425,6 +472,13 @@ namespace meta_impl {
             if (std::isnan(t2)) return true;
             return t1 > t2;
         }
+
+        template<typename U, typename V, typename enable = enable_mixed_compare_<U,V>>
+        bool operator() (const U& t1, const V& t2) {
+            if (t1 != t1) return false;
+            if (t2 != t2) return true;
+            return mixed_less_(t2, t1);
+        }
     };
 } // end namespace meta_impl
 } // end namespace impl
-- 
2.43.0


From aa6be13ae2845ffb064de07a9868059b27c6c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:13 +0000
Subject: [PATCH 020/167] fix: equal_range returned the wrong last index, and
 an index when no value is equal

---
 include/vif/utility/bits/generic-find.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-find.hpp b/include/vif/utility/bits/generic-find.hpp
index a52c2ac..5312378 100644
--- a/include/vif/utility/bits/generic-find.hpp
+++ b/include/vif/utility/bits/generic-find.hpp
@@ -408,6 +408,7 @@ namespace vif {
     }
 
     // Return the indices of all the first and last values in the array that are equal to 'x'.
+    // Returns 'npos' for both if no value is equal to 'x'.
     // Note: assumes that 'v' is sorted and does not contain NaN values.
     template<typename T, std::size_t Dim, typename Type>
     std::array<uint_t,2> equal_range(const vec<Dim,Type>& v, T x) {
@@ -415,9 +416,9 @@ namespace vif {
         auto tres = std::equal_range(v.data.begin(), v.data.end(), x,
             typename vec<Dim,Type>::comparator_less());
 
-        if (tres.first != v.data.end()) {
+        if (tres.first != tres.second) {
             res[0] = tres.first - v.data.begin();
-            res[1] = tres.second - v.data.begin();
+            res[1] = tres.second - v.data.begin() - 1;
         } else {
             res[0] = res[1] = npos;
         }
-- 
2.43.0


From 1094979f39b8a6385baae3a39af84359f7db0790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:04 +0000
Subject: [PATCH 021/167] fix: flatten and reform left the dimensions of the
 moved vector unchanged

---
 include/vif/utility/bits/generic-dims.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vif/utility/bits/generic-dims.hpp b/include/vif/utility/bits/generic-dims.hpp
index fb21603..1cbe3cc 100644
--- a/include/vif/utility/bits/generic-dims.hpp
+++ b/include/vif/utility/bits/generic-dims.hpp
@@ -21,6 +21,8 @@ namespace vif {
         vec<1,Type> r;
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.data.clear();
+        v.dims.fill(0);
         return r;
     }
 
@@ -37,6 +39,8 @@ namespace vif {
         vec<1,Type*> r(impl::vec_ref_tag, v.parent);
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.data.clear();
+        v.dims.fill(0);
         return r;
     }
 
@@ -70,6 +74,8 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.data.clear();
+        v.dims.fill(0);
 
         return r;
     }
@@ -104,6 +110,8 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.data.clear();
+        v.dims.fill(0);
 
         return r;
     }
-- 
2.43.0


From d29da780da30a91b8af9fa57f39c100010adbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:04 +0000
Subject: [PATCH 022/167] fix: percentiles close to 100% of vectors with NaN
 values returned NaN

---
 include/vif/math/reduce.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..a8d2911 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -213,7 +213,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +231,12 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            if (nwrong == v.size()) {
+                r.safe[i] = dnan;
+            } else {
+                r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-nwrong-1));
+            }
+
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
-- 
2.43.0


From 7ad850aaf6963bb156cf83a3cd83e654a94b9379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 023/167] fix: cumul_reverse only added the next value instead
 of all the following ones

---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..222d137 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -379,7 +379,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From fb8e8845dde682ee6f673edff04a2d06d4cf0127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 024/167] fix: integrate of binned data used the value of the
 wrong bin at the lower bound

---
 include/vif/math/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index a8d2911..56996e2 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -790,7 +790,7 @@ namespace vif {
                 r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
             }
 
-            r += y.safe[i0]*(x.safe[i0] - x0);
+            r += y.safe[i0-1]*(x.safe[i0] - x0);
             r += y.safe[i1]*(x1 - x.safe[i1]);
 
             return r;
-- 
2.43.0


From a01218396c59c1193dbbab3cb741493b11d74272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 025/167] fix: integrate read out of bounds when the range
 starts at the end of the data

---
 include/vif/math/reduce.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 56996e2..274558c 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -740,6 +740,7 @@ namespace vif {
 
         uint_t i0 = upper_bound(x, x0);
         uint_t i1 = lower_bound(x, x1);
+        if (i0 == npos) i0 = i1;
 
         if (i0 > i1) {
             double y0 = interpolate(y.safe[i1], y.safe[i0], x.safe[i1], x.safe[i0], x0);
@@ -815,7 +816,7 @@ namespace vif {
             // No hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
-                i1 = x.size()-1;
+                i0 = i1 = x.size()-1;
             } else {
                 i1 = i0-1;
                 while (i1 < x.size()-1 && x.safe[i1+1] <= x1) {
-- 
2.43.0


From ca3838565a37f461e8aa6a3ed78ed25c837807ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 026/167] fix: integrate and cumul of empty data read out of
 bounds

---
 include/vif/math/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 274558c..ea01987 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -699,7 +699,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
         }
 
@@ -876,7 +876,7 @@ namespace vif {
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
-        for (uint_t i : range(1, x.size())) {
+        for (uint_t i = 1; i < x.size(); ++i) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
             dr.safe[i] = r;
         }
-- 
2.43.0


From ce7d4a653488e61303a48754a93135e7e9b16e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 027/167] fix: cubic spline coefficients were wrong for
 irregularly spaced data

---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..16c3a2c 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -285,7 +285,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From 607528ca95caefa1d94b93769489e0a3bc251238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 028/167] fix: rgen and rgen_log gave wrong ranges with integer
 bounds

---
 include/vif/math/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/base.hpp b/include/vif/math/base.hpp
index fa2da01..e9ff117 100644
--- a/include/vif/math/base.hpp
+++ b/include/vif/math/base.hpp
@@ -202,7 +202,7 @@ namespace vif {
             return vec1d({static_cast<double>(i)});
         } else {
             vec1d v(n);
-            double dx = (j-i)/double(n-1);
+            double dx = (double(j)-double(i))/double(n-1);
             for (uint_t k : range(uint_t(n))) {
                 v.safe[k] = i + k*dx;
             }
@@ -221,7 +221,7 @@ namespace vif {
             return {i};
         } else {
             vec1d v(n);
-            double dx = log10(j/i)/double(n-1);
+            double dx = log10(double(j)/double(i))/double(n-1);
             for (uint_t k : range(uint_t(n))) {
                 v.safe[k] = i*e10(k*dx);
             }
-- 
2.43.0


From 14263cb1fb3e17dffb6f21fd96428801f9cb299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:07 +0000
Subject: [PATCH 029/167] fix: bilinear and bicubic interpolation read out of
 bounds of small maps

---
 include/vif/math/interpolate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 16c3a2c..e027b20 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -159,6 +159,9 @@ namespace vif {
 
     template<typename Type>
     meta::rtype_t<Type> bilinear(const vec<2,Type>& map, double x, double y) {
+        vif_check(map.dims[0] >= 2 && map.dims[1] >= 2, "interpolated map must contain at least "
+            "2 elements in each dimension (got ", map.dims, ")");
+
         int_t tix = floor(x);
         int_t tiy = floor(y);
         double dx = x - tix;
@@ -232,7 +235,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix < 0 || uint_t(tix) >= map.dims[0]-1 || tiy < 0 || uint_t(tiy) >= map.dims[1]-1) {
+        if (tix < 0 || uint_t(tix)+1 >= map.dims[0] || tiy < 0 || uint_t(tiy)+1 >= map.dims[1]) {
             return def;
         }
 
@@ -468,7 +471,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix <= 0 || uint_t(tix) >= map.dims[0]-2 || tiy <= 0 || uint_t(tiy) >= map.dims[1]-2) {
+        if (tix <= 0 || uint_t(tix)+2 >= map.dims[0] || tiy <= 0 || uint_t(tiy)+2 >= map.dims[1]) {
             return def;
         }
 
-- 
2.43.0


From f372c30a230f6dfc8d63754ea2f1bdaf78c23a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:07 +0000
Subject: [PATCH 030/167] fix: interpolate with uncertainties did not check
 their number and read out of bounds

---
 include/vif/math/interpolate.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index e027b20..66fd2c2 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -116,6 +116,8 @@ namespace vif {
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
+        vif_check(y.dims == e.dims, "incompatible dimensions between Y and E arrays (", y.dims,
+            " vs. ", e.dims, ")");
         vif_check(y.size() >= 2, "interpolated data must contain at least 2 elements");
 
         uint_t nmax = x.size();
-- 
2.43.0


From ef80ed87be71ee50cf4e8426ee3d1990d764d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 031/167] fix: parallel_for called the function out of range
 with one thread, and skipped or invented indices when not starting from zero

---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..7a30151 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, i0, i1, iend, di;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, ilast);
+                iend = ilast;
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From c1e4258a413e5b2700e8c12754ff3e56fed7d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:14 +0000
Subject: [PATCH 032/167] fix: print_progress crashed when there is nothing to
 do

---
 include/vif/utility/time.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index 6501886..f4993d5 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -185,7 +185,7 @@ namespace vif {
     // 'i' is the current iteration number.
     template<typename I, typename M = uint_t>
     void print_progress(progress_t& p, const I& ti, const M& mod = 1) {
-        if (p.ended) return;
+        if (p.ended || p.n == 0) return;
 
         p.i = ti;
         if (p.i >= p.n-1) {
-- 
2.43.0


From 33061c240c3e9432fe381e5789aa7fb326a9f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:14 +0000
Subject: [PATCH 033/167] fix: restarting a worker pool without joining it
 first never returned

---
 include/vif/utility/bits/thread-worker-pool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index a5d4326..bc2ba74 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -100,6 +100,7 @@ namespace thread {
 
         template<typename F, typename ... Args>
         void start(uint_t nthread, const F& f, const Args&... args) {
+            join();
             workers.clear();
             workers.reserve(nthread);
             for (uint_t i = 0; i < nthread; ++i) {
-- 
2.43.0


From 0075102526fac680e37a4e9b602ddf01b775c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 034/167] fix: cut() dropped the last, shorter piece of the
 string

---
 include/vif/utility/bits/string-split.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..55354cf 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -38,7 +38,9 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        vif_check(size > 0, "cannot cut a string into pieces of zero length");
+
+        uint_t ncut = ts.size()/size + (ts.size() % size != 0 ? 1 : 0);
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From f4ae3eb4b3b19dc30b39564d5f3fb7d9b0df5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 035/167] fix: replace_blocks() used separators found after the
 end of the block

---
 include/vif/utility/bits/string-find-replace.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..86db988 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -177,8 +177,10 @@ namespace vif {
 
             vec1s b;
 
+            // Only consider the separators found before the end of this block.
+            // NB: the separator can start with the same characters as the end.
             p0 = os.find(sep, p);
-            while (p0 != npos) {
+            while (p0 != npos && p0 <= os.find(end, p)) {
                 b.push_back(os.substr(p, p0-p));
                 p0 += sep.size();
                 p = p0;
-- 
2.43.0


From cdad9a120309ea782623736a9def342135aab19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:33 +0000
Subject: [PATCH 036/167] fix: regex_extract and regex_replace hung on empty
 matches, and mishandled anchors and optional groups

---
 include/vif/utility/bits/string-regex.hpp | 64 ++++++++++++++++-------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 34c4f3d..455f08b 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -37,18 +37,34 @@ namespace vif {
             return regexec(&re, ts.c_str(), std::size_t(0), nullptr, 0) == 0;
         }
 
-        inline uint_t regex_find_nmatch_(const std::string& regex) {
-            uint_t nmatch = 0;
-            uint_t p = regex.find_first_of('(');
-            while (p != npos) {
-                if (p == 0 || regex[p-1] != '\\') {
-                    ++nmatch;
+        // Find the next match of a regular expression in a string, starting at 'offset'.
+        // The position of the match is relative to 'offset'. If 'after_empty' is true, the
+        // previous match was empty, and an other empty match at the same place is not wanted.
+        inline bool regex_next_match_(const std::string& ts, regex_t& re,
+            std::vector<regmatch_t>& m, uint_t offset, bool after_empty) {
+
+            // Anchors for the beginning of the string only match at the beginning
+            int flags = (offset == 0 ? 0 : REG_NOTBOL);
+            if (regexec(&re, ts.c_str() + offset, m.size(), m.data(), flags) != 0) {
+                return false;
+            }
+
+            if (after_empty && m[0].rm_eo == 0) {
+                // Move on to the next character
+                if (offset >= ts.size()) return false;
+                if (regexec(&re, ts.c_str() + offset + 1, m.size(), m.data(), REG_NOTBOL) != 0) {
+                    return false;
                 }
 
-                p = regex.find_first_of('(', p+1);
+                for (auto& t : m) {
+                    if (t.rm_so >= 0) {
+                        ++t.rm_so;
+                        ++t.rm_eo;
+                    }
+                }
             }
 
-            return nmatch;
+            return true;
         }
     }
     }
@@ -93,14 +109,16 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
-        if (nmatch == 0) return ret;
+        uint_t nmatch = re.re_nsub;
+        if (nmatch == 0) {
+            regfree(&re);
+            return ret;
+        }
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
-        int status = regexec(&re, ts.c_str(), nmatch+1, m.data(), 0);
-
-        while (status == 0) {
+        bool empty_match = false;
+        while (impl::regex::regex_next_match_(ts, re, m, offset, empty_match)) {
             vec1s tret;
             tret.reserve(nmatch);
             for (uint_t i : range(nmatch)) {
@@ -114,9 +132,11 @@ namespace vif {
             append<0>(ret, reform(std::move(tret), 1, nmatch));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            empty_match = m[0].rm_so == m[0].rm_eo;
         }
 
+        regfree(&re);
+
         return ret;
     }
 
@@ -127,28 +147,32 @@ namespace vif {
         regex_t re;
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
-        uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
+        uint_t nmatch = re.re_nsub;
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
-        int status = regexec(&re, ts.c_str(), nmatch+1, m.data(), 0);
-
-        while (status == 0) {
+        bool empty_match = false;
+        while (impl::regex::regex_next_match_(ts, re, m, offset, empty_match)) {
             s += ts.substr(offset, m[0].rm_so);
 
             vec1s ext;
             ext.reserve(nmatch);
             for (uint_t i : range(nmatch)) {
-                ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                if (m[i+1].rm_eo > m[i+1].rm_so) {
+                    ext.push_back(ts.substr(offset+m[i+1].rm_so, m[i+1].rm_eo - m[i+1].rm_so));
+                } else {
+                    ext.push_back("");
+                }
             }
 
             s += func(std::move(ext));
 
             offset += m[0].rm_eo;
-            status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
+            empty_match = m[0].rm_so == m[0].rm_eo;
         }
 
         s += ts.substr(offset);
+        regfree(&re);
 
         return s;
     }
-- 
2.43.0


From ca40c44762c606e1907010c5a38677089658479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:42 +0000
Subject: [PATCH 037/167] fix: hash() depended on how arguments are passed and
 ignored digits of floating point values

---
 include/vif/utility/bits/string-hash.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/bits/string-hash.hpp b/include/vif/utility/bits/string-hash.hpp
index 7f50758..55c8f25 100644
--- a/include/vif/utility/bits/string-hash.hpp
+++ b/include/vif/utility/bits/string-hash.hpp
@@ -157,14 +157,18 @@ namespace vif {
         }
 
         template<typename T, typename ... Args>
-        std::string hash_(std::string s, T&& t, Args&& ... args) {
-            return hash_(s+pretty_type(t)+to_string(t), std::forward<Args>(args)...);
+        std::string hash_(std::string s, const T& t, const Args& ... args) {
+            // Only use the type and the value, so the hash does not depend on how the argument
+            // is passed, and use enough digits so that different values never look the same
+            std::ostringstream ss;
+            ss << std::setprecision(std::numeric_limits<double>::max_digits10) << t;
+            return hash_(s+typeid(T).name()+ss.str(), args...);
         }
     }
     }
 
     template<typename ... Args>
-    std::string hash(Args&& ... args) {
-        return impl::sha1::hash_(std::string(), std::forward<Args>(args)...);
+    std::string hash(const Args& ... args) {
+        return impl::sha1::hash_(std::string(), args...);
     }
 }
-- 
2.43.0


From a6e716c4e923605d12f548d1c155c76cb7543f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:17 +0000
Subject: [PATCH 038/167] fix: from_string() converted negative numbers into
 large unsigned values

---
 include/vif/core/string_conversion.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/vif/core/string_conversion.hpp b/include/vif/core/string_conversion.hpp
index b5df57c..65d4e0b 100644
--- a/include/vif/core/string_conversion.hpp
+++ b/include/vif/core/string_conversion.hpp
@@ -188,6 +188,18 @@ namespace impl {
     bool from_string_fallback(const std::string&, T&, std::false_type) {
         return false;
     }
+
+    // The standard streams silently wrap negative numbers into large unsigned values
+    template<typename T>
+    bool from_string_wrapped(const std::string& s, const T& t, std::true_type) {
+        auto p = s.find_first_not_of(" \t\n\v\f\r");
+        return p != s.npos && s[p] == '-' && t != 0;
+    }
+
+    template<typename T>
+    bool from_string_wrapped(const std::string&, const T&, std::false_type) {
+        return false;
+    }
 }
 
     template<typename T>
@@ -196,6 +208,11 @@ namespace impl {
         ss >> t;
 
         if (!ss.fail()) {
+            if (impl::from_string_wrapped(s, t, std::integral_constant<bool,
+                std::is_unsigned<T>::value && (sizeof(T) > 1)>{})) {
+                return false;
+            }
+
             if (ss.eof()) return true;
             std::string rem;
             ss >> rem;
-- 
2.43.0


From 26be59636c10dc6010c0fefdf67ffa689c683081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:24 +0000
Subject: [PATCH 039/167] fix: get_word() returned an empty string if the
 string is a single word

---
 include/vif/utility/bits/string-find-replace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 86db988..21a44a4 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -129,7 +129,7 @@ namespace vif {
                 ++nw;
             }
 
-            p2 = (p2 == str.npos ? str.npos : p2-1);
+            p2 = (p2 == str.npos ? str.size()-1 : p2-1);
             return str.substr(p1, p2-p1+1);
         }
     }
-- 
2.43.0


From a4bc6d89d10d32c4efed1f7187d37c32f09c1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:59 +0000
Subject: [PATCH 040/167] fix: program_arguments::write() read the arguments
 that follow a named one instead of writing them

---
 include/vif/utility/argv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index 2ce9ebc..a8d5402 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -267,7 +267,7 @@ namespace vif {
             valid.push_back(true);
 
             if (pos != names.npos && pos != names.size()) {
-                read_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
+                write_args_(argv, read, valid, names.substr(pos+1), std::forward<Args>(args)...);
             }
         }
     }
-- 
2.43.0


From e4b70881f3492e9395a760359273ab6806a869f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:59 +0000
Subject: [PATCH 041/167] fix: read_args() modified variables whose argument
 could not be converted

---
 include/vif/utility/argv.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index a8d5402..cfc9d9c 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -26,7 +26,11 @@ namespace vif {
         template<typename T,
             typename enable = typename std::enable_if<!std::is_same<T, vec<1,std::string>>::value>::type>
         bool read_args_n2T_(T& t, const std::string& s) {
-            return from_string(s, t);
+            // Do not modify the variable if the conversion fails
+            T tmp = t;
+            if (!from_string(s, tmp)) return false;
+            t = tmp;
+            return true;
         }
 
         template<typename U>
-- 
2.43.0


From 3c063ea8c9fd8626319293921a90028c8f86b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:59 +0000
Subject: [PATCH 042/167] fix: read_args() did not recognize the documented
 --variable=value syntax

---
 include/vif/utility/argv.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index cfc9d9c..c0d4464 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -56,22 +56,25 @@ namespace vif {
             return true;
         }
 
+        // Number of leading dashes to ignore in a command line argument (at most two)
+        inline uint_t read_args_dashes_(const std::string& arg) {
+            uint_t n = 0;
+            while (n < 2 && n < arg.size() && arg[n] == '-') ++n;
+            return n;
+        }
+
         template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, T& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
@@ -89,18 +92,14 @@ namespace vif {
         bool read_args_impl_(const std::string& arg, bool& read, bool& valid, const std::string& name, vec<1,T>& t) {
             auto p = arg.find_first_of('=');
             if (p == arg.npos) {
-                if (arg[0] == '-') {
-                    if (arg.substr(1) != name) {
-                        return false;
-                    }
-                } else if (arg != name) {
+                if (arg.substr(read_args_dashes_(arg)) != name) {
                     return false;
                 }
 
                 read = true;
                 valid = read_args_n2T_(t, 1);
             } else {
-                int_t p0 = arg[0] == '-' ? 1 : 0;
+                uint_t p0 = read_args_dashes_(arg);
                 std::string aname = trim(arg.substr(p0, p - p0));
                 if (aname != name) {
                     return false;
-- 
2.43.0


From 3e2e4661793a944a1431d0978bee3e2cd6b4d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:52 +0000
Subject: [PATCH 043/167] fix: read_args() ignored an argument if its name was
 found in an invalid argument for another variable

---
 include/vif/utility/argv.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/argv.hpp b/include/vif/utility/argv.hpp
index c0d4464..b03317c 100644
--- a/include/vif/utility/argv.hpp
+++ b/include/vif/utility/argv.hpp
@@ -175,10 +175,18 @@ namespace vif {
             vec1u idm = where(find(argv, tname) != npos);
             bool found = false;
             for (auto& i : idm) {
-                if (read_args_impl_(argv[i], read[i], valid[i], tname, t)) {
+                bool tread = false;
+                bool tvalid = true;
+                if (read_args_impl_(argv[i], tread, tvalid, tname, t)) {
                     found = true;
                 }
-                if (!valid[i]) {
+
+                // This argument is for another variable
+                if (!tread) continue;
+
+                read[i] = true;
+                valid[i] = tvalid;
+                if (!tvalid) {
                     warning("could not convert '", tname, "' argument to type ", pretty_type_t(T));
                     break;
                 }
@@ -210,10 +218,18 @@ namespace vif {
             vec1u idm = where(find(argv, t.name) != npos);
             bool found = false;
             for (auto& i : idm) {
-                if (read_args_impl_(argv[i], read[i], valid[i], t.name, t.obj)) {
+                bool tread = false;
+                bool tvalid = true;
+                if (read_args_impl_(argv[i], tread, tvalid, t.name, t.obj)) {
                     found = true;
                 }
-                if (!valid[i]) {
+
+                // This argument is for another variable
+                if (!tread) continue;
+
+                read[i] = true;
+                valid[i] = tvalid;
+                if (!tvalid) {
                     warning("could not convert '", t.name, "' argument to type ", pretty_type_t(T));
                     break;
                 }
-- 
2.43.0


From cd70389e9019d4e9cd05046bead265b32b6ff947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 044/167] fix: file::explorer closed its directory twice after
 close()

---
 include/vif/io/filesystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..4855849 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -105,6 +105,7 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
+                dirfd = nullptr;
             };
         }
 
-- 
2.43.0


From 2fa300bcb3c04e1bb82702a79c3046521ceec74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 045/167] fix: file::get_basename("dir/") returned "/",
 repeated trailing slashes were not ignored

---
 include/vif/io/filesystem.hpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 4855849..f3975d7 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -210,21 +210,21 @@ namespace file {
         if (pos == path.npos) {
             return path;
         } else {
-            auto lpos = path.find_last_not_of(' ');
-            if (pos == lpos) {
-                if (pos == 0) {
+            if (pos == path.find_last_not_of(' ')) {
+                // Ignore the trailing slashes
+                auto lpos = path.find_last_not_of('/', pos);
+                if (lpos == path.npos) {
                     return "/";
-                } else {
-                    pos = path.find_last_of('/', pos-1);
-                    if (pos == path.npos) {
-                        return path.substr(lpos);
-                    } else {
-                        return path.substr(pos+1, lpos-pos-1);
-                    }
                 }
-            } else {
-                return path.substr(pos+1);
+
+                path.erase(lpos+1);
+                pos = path.find_last_of('/');
+                if (pos == path.npos) {
+                    return path;
+                }
             }
+
+            return path.substr(pos+1);
         }
     }
 
@@ -252,10 +252,12 @@ namespace file {
         if (pos == path.npos) {
             return "./";
         } else if (pos == path.find_last_not_of(' ')) {
-            if (pos == 0) {
+            // Ignore the trailing slashes
+            auto lpos = path.find_last_not_of('/', pos);
+            if (lpos == path.npos) {
                 return "/";
             } else {
-                pos = path.find_last_of('/', pos-1);
+                pos = path.find_last_of('/', lpos);
                 if (pos == path.npos) {
                     return "./";
                 } else {
-- 
2.43.0


From 05c3273985f23bcc2f9dfc8437bc747ac2c31b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 046/167] fix: file::is_older() compared the time of the last
 status change, not of the last modification

---
 include/vif/io/filesystem.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index f3975d7..881d3cd 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -31,7 +31,11 @@ namespace file {
         struct stat st1, st2;
         if (::stat(file1.c_str(), &st1) != 0) return false;
         if (::stat(file2.c_str(), &st2) != 0) return false;
-        return std::difftime(st1.st_ctime, st2.st_ctime) < 0.0;
+        if (st1.st_mtim.tv_sec != st2.st_mtim.tv_sec) {
+            return st1.st_mtim.tv_sec < st2.st_mtim.tv_sec;
+        } else {
+            return st1.st_mtim.tv_nsec < st2.st_mtim.tv_nsec;
+        }
     }
 
     inline bool is_absolute_path(const std::string& path) {
-- 
2.43.0


From 8f6d3f4d2dded25fbf3df1517032223fd255a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 047/167] fix: file::mkdir() reported success if a file exists
 with this name

---
 include/vif/io/filesystem.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 881d3cd..e001e94 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -281,8 +281,12 @@ namespace file {
             if (d.empty()) continue;
             if (!tmp.empty() || begins_with(path, "/")) tmp += "/";
             tmp += d;
-            bool res = (::mkdir(tmp.c_str(), 0775) == 0) || (errno == EEXIST);
-            if (!res) return false;
+            if (::mkdir(tmp.c_str(), 0775) != 0) {
+                // It is fine if this already exists, as long as it is a directory
+                struct stat st;
+                bool res = errno == EEXIST && ::stat(tmp.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
+                if (!res) return false;
+            }
         }
         return true;
     }
-- 
2.43.0


From c4a12d0dfd65a05f6b4ea8180f2a4aa1ef3a6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 048/167] fix: file::copy() ignored read and write errors, and
 erased a file copied onto itself

---
 include/vif/io/filesystem.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index e001e94..dec806f 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -46,10 +46,29 @@ namespace file {
     inline bool copy(const std::string& file_from, const std::string& file_to) {
         std::ifstream src(file_from, std::ios::binary);
         if (!src.is_open()) return false;
+
+        // Make sure that the file can be read (e.g., it is not a directory) before
+        // touching the destination
+        src.peek();
+        if (src.bad()) return false;
+        src.clear();
+
+        // Do not erase the content of the file if copied onto itself
+        struct stat st1, st2;
+        if (::stat(file_from.c_str(), &st1) == 0 && ::stat(file_to.c_str(), &st2) == 0 &&
+            st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) return true;
+
         std::ofstream dst(file_to,   std::ios::binary);
         if (!dst.is_open()) return false;
-        dst << src.rdbuf();
-        return true;
+
+        char buffer[4096];
+        while (dst && src) {
+            src.read(buffer, sizeof(buffer));
+            dst.write(buffer, src.gcount());
+        }
+
+        dst.close();
+        return !dst.fail() && !src.bad();
     }
 
     inline bool remove(const std::string& path) {
-- 
2.43.0


From 2363e202396e8c848f5725531edb9ed4d7e524e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 049/167] fix: file::exists() did not see the files that cannot
 be read

---
 include/vif/io/filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index dec806f..215f09b 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -23,8 +23,8 @@ namespace file {
             return false;
         }
 
-        std::ifstream f(path.c_str());
-        return f.is_open();
+        struct stat st;
+        return ::stat(path.c_str(), &st) == 0;
     }
 
     inline bool is_older(const std::string& file1, const std::string& file2) {
-- 
2.43.0


From 8065703dc0a0abe7de0bd9304c879e3e4b76749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:02 +0000
Subject: [PATCH 050/167] fix: ascii::read_table() tried to read 2^64 rows if
 the table has less than skip_first lines

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..7c35ec6 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -343,7 +343,7 @@ namespace ascii {
                     ++n;
                 }
 
-                n -= opts.skip_first;
+                n -= std::min(n, opts.skip_first);
             }
 
             // Resize all vectors
-- 
2.43.0


From 7a8a4b162f87f91f1cdf39ac82205e1c68e3f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:02 +0000
Subject: [PATCH 051/167] fix: ascii::read_table() never returned if the file
 cannot be read

---
 include/vif/io/ascii.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 7c35ec6..bbe2ab8 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -329,12 +329,11 @@ namespace ascii {
             spl.delim_single = opts.delim_single;
 
             std::ifstream file(name);
+            vif_check(file.is_open(), "cannot open file '"+name+"'");
 
             // Count number of lines
             uint_t n = 0; {
-                while (!file.eof()) {
-                    ascii::getline(file, spl.line);
-
+                while (ascii::getline(file, spl.line)) {
                     auto p = spl.line.find_first_not_of(" \t");
                     if (p == spl.line.npos || (opts.auto_skip && spl.line.find(opts.skip_pattern) == p)) {
                         continue;
@@ -343,6 +342,8 @@ namespace ascii {
                     ++n;
                 }
 
+                vif_check(!file.bad(), "cannot read file '"+name+"'");
+
                 n -= std::min(n, opts.skip_first);
             }
 
@@ -355,9 +356,8 @@ namespace ascii {
 
             uint_t i = 0;
             uint_t to_skip = opts.skip_first;
-            while (!file.eof()) {
+            while (ascii::getline(file, spl.line)) {
                 spl.reset();
-                ascii::getline(file, spl.line);
 
                 auto p = spl.line.find_first_not_of(" \t");
                 if (p == spl.line.npos || (opts.auto_skip && spl.line.find(opts.skip_pattern) == p)) {
@@ -373,6 +373,8 @@ namespace ascii {
                 impl::ascii_impl::read_table_(spl, i, j, args...);
                 ++i;
             }
+
+            vif_check(!file.bad(), "cannot read file '"+name+"'");
         } catch (ascii::exception& e) {
             vif_check(false, std::string(e.what())+" (reading "+name+")");
         }
-- 
2.43.0


From 278a77b3d29874a4b2560f7277d3c6bfcaeab51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:02 +0000
Subject: [PATCH 052/167] fix: ascii::read_table() did not read past an empty
 first column (with delim_single)

---
 include/vif/io/ascii.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index bbe2ab8..8fde6c5 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -86,18 +86,12 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         pos = p1;
                     } else {
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
@@ -112,10 +106,6 @@ namespace impl {
                 if (delim_single) {
                     if (pos == line.npos) return false;
 
-                    if (pos != 0) {
-                        pos += delim.size();
-                    }
-
                     uint_t p1 = line.find(delim, pos);
                     if (p1 == line.npos) {
                         sub = line.substr(pos);
@@ -124,8 +114,6 @@ namespace impl {
                         sub = line.substr(pos, p1-pos);
                         pos = p1 + delim.size();
                     }
-
-                    pos = p1;
                 } else {
                     uint_t p0 = line.find_first_not_of(delim, pos);
                     if (p0 == line.npos) return false;
-- 
2.43.0


From 4e9f6d0addb5f51f056486cdb15a5de7f1906467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:02 +0000
Subject: [PATCH 053/167] fix: ascii::write_table() accepted non-empty columns
 after an empty one, and read out of bounds

---
 include/vif/io/ascii.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 8fde6c5..86cd3a8 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -444,6 +444,17 @@ namespace impl {
 
         inline void write_table_check_size_(uint_t& r, uint_t& c) {}
 
+        inline void write_table_check_rows_(uint_t& r, uint_t c, uint_t n) {
+            if (r == npos) {
+                r = n;
+            }
+
+            if (n != r) {
+                throw ascii::exception("incorrect dimension for column "+to_string(c)+" ("+
+                    to_string(n)+" vs "+to_string(r)+")");
+            }
+        }
+
         template<typename U, typename ... VArgs, typename ... Args>
         void write_table_check_size_(uint_t& r, uint_t& c, const std::tuple<U,VArgs...>& v,
             const Args& ... args);
@@ -459,14 +470,7 @@ namespace impl {
 
             static_assert(Dim <= 2, "cannot write vectors of more than two dimensions");
 
-            if (r == 0) {
-                r = v.dims[0];
-            }
-
-            if (v.dims[0] != r) {
-                throw ascii::exception("incorrect dimension for column "+to_string(c)+" ("+
-                    to_string(v.dims[0])+" vs "+to_string(r)+")");
-            }
+            write_table_check_rows_(r, c, v.dims[0]);
 
             if (Dim == 2) {
                 c += v.dims[1];
@@ -625,7 +629,7 @@ namespace ascii {
         vif_check(file.out.is_open(), "could not open file "+filename+" to write data");
 
         // Compute number of rows and check that all vectors have the same size
-        uint_t r = 0, c = 0;
+        uint_t r = npos, c = 0;
         impl::ascii_impl::write_table_check_size_(r, c, args...);
 
         if (!opts.header.empty()) {
-- 
2.43.0


From 3db1a962e5b415e803043458cc7adbe6fc2c994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:03 +0000
Subject: [PATCH 054/167] fix: ascii::write_table() shuffled the table, or read
 out of bounds, if columns(n,v) is given a number of columns that is not that
 of v

---
 include/vif/io/ascii.hpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 86cd3a8..c921887 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -481,11 +481,39 @@ namespace impl {
             write_table_check_size_(r, c, args...);
         }
 
+        inline void write_table_check_cols_(uint_t& r, uint_t& c, uint_t m) {}
+
+        template<typename F, typename ... Args>
+        void write_table_check_cols_(uint_t& r, uint_t& c, uint_t m, const F& f,
+            const Args& ... args);
+
+        template<typename Type, typename ... Args>
+        void write_table_check_cols_(uint_t& r, uint_t& c, uint_t m, const vec<2,Type>& v,
+            const Args& ... args) {
+
+            write_table_check_rows_(r, c, v.dims[0]);
+
+            if (v.dims[1] < m) {
+                throw ascii::exception("too few columns in vector for column "+to_string(c)+" ("+
+                    to_string(v.dims[1])+" vs "+to_string(m)+")");
+            }
+
+            c += m;
+            write_table_check_cols_(r, c, m, args...);
+        }
+
+        template<typename F, typename ... Args>
+        void write_table_check_cols_(uint_t& r, uint_t& c, uint_t m, const F& f,
+            const Args& ... args) {
+
+            write_table_check_cols_(r, c, m, f.obj, args...);
+        }
+
         template<typename U, typename ... VArgs, uint_t ... S>
         void write_table_check_size_tuple_(uint_t& r, uint_t& c, const std::tuple<U,VArgs...>& v,
             meta::seq_t<S...>) {
 
-            write_table_check_size_(r, c, std::get<S>(v)...);
+            write_table_check_cols_(r, c, std::get<0>(v), std::get<S>(v)...);
         }
 
         template<typename U, typename ... VArgs, typename ... Args>
-- 
2.43.0


From 0ff747b9731e75007c452b1a8de9e151495bd9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:03 +0000
Subject: [PATCH 055/167] fix: ascii::write_table() did not report write errors

---
 include/vif/io/ascii.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index c921887..11d8dc1 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -723,6 +723,9 @@ namespace ascii {
         } catch (ascii::exception& e) {
             vif_check(false, std::string(e.what())+" (writing "+filename+")");
         }
+
+        file.out.close();
+        vif_check(!file.out.fail(), "could not write data to file "+filename);
     }
 
     template<typename T, typename ... Args, typename enable = typename std::enable_if<
-- 
2.43.0


From 88328ec20b75534d6298722abd5b2404887e0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:11 +0000
Subject: [PATCH 056/167] fix: a FITS object could not be used anymore after an
 error when opening a file or reading data

---
 include/vif/io/fits/base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7e64ae3..f23611e 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -392,6 +392,7 @@ namespace impl {
 
             void open(const std::string& filename) {
                 close();
+                status_ = 0;
 
                 if (rights_ == write_only || (rights_ == read_write && !file::exists(filename))) {
                     fits_create_file(&fptr_, ("!"+filename).c_str(), &status_);
@@ -457,6 +458,9 @@ namespace impl {
                 if (!is_open()) {
                     throw fits::exception("no FITS file opened, cannot proceed");
                 }
+
+                // Forget about previous errors, else CFITSIO would refuse to do anything
+                status_ = 0;
             }
 
             void get_table_format_() {
-- 
2.43.0


From 832da7b1606b4583b95b303cb2b10d7fc1c6073b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:11 +0000
Subject: [PATCH 057/167] fix: fits::file_base::reach_hdu() inserted new HDUs
 in the middle of the file

---
 include/vif/io/fits/base.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f23611e..213e7cb 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -599,6 +599,13 @@ namespace impl {
                 } else {
                     if (hdu >= nhdu) {
                         // Create missing HDUs to be able to reach the one requested
+                        // NB: CFITSIO inserts *after* the current HDU, so go to the last one first
+                        if (nhdu > 0) {
+                            fits_movabs_hdu(fptr_, nhdu, nullptr, &status_);
+                            fits::vif_check_cfitsio(status_,
+                                "could not create new HDUs to reach HDU "+to_string(hdu));
+                        }
+
                         long naxes = 0;
                         for (uint_t i = nhdu; i <= hdu; ++i) {
                             fits_insert_img(fptr_, impl::fits_impl::traits<float>::image_type,
-- 
2.43.0


From de248edea4798f310b22d499fb6808555222793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:11 +0000
Subject: [PATCH 058/167] fix: infinite and denormalized values in FITS files
 were read as NaN and zero

---
 include/vif/io/fits/base.hpp  |  7 +++++++
 include/vif/io/fits/image.hpp | 20 +++++++++++++-------
 include/vif/io/fits/table.hpp | 19 +++++++++++++++----
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 213e7cb..f518a67 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -463,6 +463,13 @@ namespace impl {
                 status_ = 0;
             }
 
+            // CFITSIO will replace infinite and denormalized values if asked to look for undefined
+            // values in floating point data, when undefined values are already stored as NaN.
+            template<typename T>
+            static bool must_check_null_(int type) {
+                return type != TFLOAT && !(type == TDOUBLE && std::is_same<T,double>::value);
+            }
+
             void get_table_format_() {
                 // Check if data exists
                 uint_t nhdu = hdu_count();
diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index 98f98fb..02dfc6e 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -23,7 +23,8 @@ namespace fits {
 
     protected:
         template<typename Type>
-        void read_prep_(uint_t rdims, int& naxis, std::vector<long>& naxes, int& type) const {
+        void read_prep_(uint_t rdims, int& naxis, std::vector<long>& naxes, int& type,
+            bool& check_null) const {
             fits_get_img_dim(fptr_, &naxis, &status_);
             fits::vif_check_cfitsio(status_, "could not read dimensions of HDU");
             vif_check_fits(naxis == int(rdims), "FITS file has wrong number of dimensions "
@@ -38,6 +39,8 @@ namespace fits {
             vif_check_fits(impl::fits_impl::traits<Type>::is_convertible(type), "wrong image type "
                 "(expected "+pretty_type_t(Type)+", got "+impl::fits_impl::type_to_string_(type)+")");
 
+            check_null = must_check_null_<Type>(type) || fits_is_compressed_image(fptr_, &status_);
+
             type = impl::fits_impl::traits<Type>::ttype;
         }
 
@@ -117,8 +120,9 @@ namespace fits {
             check_is_open_();
 
             int naxis, type;
+            bool check_null;
             std::vector<long> naxes;
-            read_prep_<Type>(Dim, naxis, naxes, type);
+            read_prep_<Type>(Dim, naxis, naxes, type, check_null);
 
             for (uint_t i : range(naxis)) {
                 v.dims[i] = naxes[naxis-1-i];
@@ -128,7 +132,7 @@ namespace fits {
 
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
-            fits_read_img(fptr_, type, 1, v.size(), &def, v.raw_data(), &anynul, &status_);
+            fits_read_img(fptr_, type, 1, v.size(), check_null ? &def : nullptr, v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read image from HDU");
         }
 
@@ -139,8 +143,9 @@ namespace fits {
             check_is_open_();
 
             int naxis, type;
+            bool check_null;
             std::vector<long> naxes;
-            read_prep_<Type>(Dim, naxis, naxes, type);
+            read_prep_<Type>(Dim, naxis, naxes, type, check_null);
 
             std::vector<long> fpixel(Dim), lpixel(Dim);
             make_indices_(0, naxes, fpixel, lpixel, args...);
@@ -155,7 +160,7 @@ namespace fits {
             int anynul;
             std::vector<long> inc(Dim, 1);
             fits_read_subset(fptr_, type, fpixel.data(), lpixel.data(), inc.data(),
-                &def, v.raw_data(), &anynul, &status_);
+                check_null ? &def : nullptr, v.raw_data(), &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not read subset image from HDU");
         }
 
@@ -164,8 +169,9 @@ namespace fits {
             check_is_open_();
 
             int naxis, type;
+            bool check_null;
             std::vector<long> naxes;
-            read_prep_<Type>(p.size(), naxis, naxes, type);
+            read_prep_<Type>(p.size(), naxis, naxes, type, check_null);
 
             uint_t ppos = 1;
             uint_t pitch = 1;
@@ -189,7 +195,7 @@ namespace fits {
             Type val;
             Type def = impl::fits_impl::traits<Type>::def();
             int anynul;
-            fits_read_img(fptr_, type, ppos, 1, &def, &val, &anynul, &status_);
+            fits_read_img(fptr_, type, ppos, 1, check_null ? &def : nullptr, &val, &anynul, &status_);
             fits::vif_check_cfitsio(status_, "could not pixel from HDU");
 
             return val;
diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 419557e..d3617b7 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -372,6 +372,13 @@ namespace fits {
 
     private :
 
+        template<typename Type>
+        bool must_check_null_column_(int cid) const {
+            int type = 0;
+            fits_get_coltype(fptr_, cid, &type, nullptr, nullptr, &status_);
+            return must_check_null_<Type>(type);
+        }
+
         template<std::size_t Dim, typename Type,
             typename enable = typename std::enable_if<!std::is_same<Type,std::string>::value>::type>
         void read_column_impl_(const table_read_options& opts, vec<Dim,Type>& v,
@@ -384,7 +391,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, nelem, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, nelem,
+                must_check_null_column_<Type>(cid) ? &def : nullptr,
                 v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
@@ -397,7 +405,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, 1, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, 1, 1, 1,
+                must_check_null_column_<Type>(cid) ? &def : nullptr,
                 reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read column '"+cname+"'");
@@ -903,7 +912,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, nelem, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, nelem,
+                must_check_null_column_<Type>(cid) ? &def : nullptr,
                 v.raw_data(), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read elements from column '"+cname+"'");
@@ -916,7 +926,8 @@ namespace fits {
             Type def = impl::fits_impl::traits<Type>::def();
             int null;
             fits_read_col(
-                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, 1, &def,
+                fptr_, impl::fits_impl::traits<Type>::ttype, cid, firstrow, firstelem, 1,
+                must_check_null_column_<Type>(cid) ? &def : nullptr,
                 reinterpret_cast<typename impl::fits_impl::traits<Type>::dtype*>(&v), &null, &status_
             );
             fits::vif_check_cfitsio(status_, "could not read element from column '"+cname+"'");
-- 
2.43.0


From 30832ccda7de93ac2f17ca84377e4ea42442da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:11 +0000
Subject: [PATCH 059/167] fix: fits::file_base::read_keyword() modified the
 value when it fails

---
 include/vif/io/fits/base.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f518a67..03ec37f 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -527,9 +527,11 @@ namespace impl {
                 char content[80];
                 int status = 0;
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
+                if (status != 0) return false;
+
                 value = content;
                 value = trim(value, " '");
-                return status == 0;
+                return true;
             }
 
             template <typename T>
@@ -546,7 +548,11 @@ namespace impl {
                     content = "0";
                 }
 
-                return from_string(content, value);
+                T tmp;
+                if (!from_string(content, tmp)) return false;
+
+                value = tmp;
+                return true;
             }
 
             uint_t hdu_count() const {
-- 
2.43.0


From dc5526765b6a57945a9f953d19a8a977b37e9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:11 +0000
Subject: [PATCH 060/167] fix: fits::file_base::read_keyword() did not restore
 the quotes in string values

---
 include/vif/io/fits/base.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 03ec37f..b4c8a80 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -529,8 +529,12 @@ namespace impl {
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
                 if (status != 0) return false;
 
-                value = content;
-                value = trim(value, " '");
+                value = trim(std::string(content));
+                if (value.size() >= 2 && value.front() == '\'' && value.back() == '\'') {
+                    // This is a string, in which quotes are written twice
+                    value = trim(replace(value.substr(1, value.size()-2), "''", "'"));
+                }
+
                 return true;
             }
 
-- 
2.43.0


From 5e946cc3706c0c447e0faf182e29cc6c2cd6e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:55 +0000
Subject: [PATCH 061/167] fix: fits::input_image::read_subset() did not check
 the lower bound of ranges, and could write out of bounds

---
 include/vif/io/fits/image.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vif/io/fits/image.hpp b/include/vif/io/fits/image.hpp
index 02dfc6e..0eaf314 100644
--- a/include/vif/io/fits/image.hpp
+++ b/include/vif/io/fits/image.hpp
@@ -78,6 +78,10 @@ namespace fits {
             std::vector<long>& fpixel, std::vector<long>& lpixel,
             impl::range_impl::right_range_t r, const Args& ... args) const {
 
+            vif_check_fits(r.first < uint_t(naxes[naxes.size()-1-idim]), "image subset goes outside of "
+                "the image boundaries (axis "+to_string(idim)+": "+to_string(r.first)+" vs. "+
+                to_string(naxes[naxes.size()-1-idim]));
+
             fpixel[naxes.size()-1-idim] = r.first+1;
             lpixel[naxes.size()-1-idim] = naxes[naxes.size()-1-idim];
 
@@ -93,6 +97,9 @@ namespace fits {
                 "the image boundaries (axis "+to_string(idim)+": "+to_string(r.last)+" vs. "+
                 to_string(naxes[naxes.size()-1-idim]));
 
+            vif_check_fits(r.first <= r.last, "invalid image subset (axis "+to_string(idim)+": "+
+                to_string(r.first)+" to "+to_string(r.last)+")");
+
             fpixel[naxes.size()-1-idim] = r.first+1;
             lpixel[naxes.size()-1-idim] = r.last+1;
 
-- 
2.43.0


From 3d50eed196220c9b62a3edfc93d169ccb8b916ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:55 +0000
Subject: [PATCH 062/167] fix: fits::output_file_base::remove_hdu() erased the
 primary HDU instead of reporting an error

---
 include/vif/io/fits/base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index b4c8a80..1cfc1ab 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -793,6 +793,8 @@ namespace impl {
             void remove_hdu() {
                 check_is_open_();
 
+                vif_check_fits(current_hdu() != 0, "the primary HDU cannot be removed");
+
                 fits_delete_hdu(fptr_, nullptr, &status_);
                 fits::vif_check_cfitsio(status_, "could not remove the current HDU");
 
-- 
2.43.0


From d76480d274f24da6b9dd7e24759682c349c7f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:47 +0000
Subject: [PATCH 063/167] fix: fits::getkey() and setkey() took slashes and
 quotes in strings for the end of the value

---
 include/vif/io/fits/base.hpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 1cfc1ab..72d8311 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -804,6 +804,31 @@ namespace impl {
     }
 }
 
+namespace impl {
+    namespace fits_impl {
+        // Find the closing quote of a FITS string which starts at the given position
+        // (quotes inside the string are written twice)
+        inline std::size_t find_closing_quote(const std::string& s, std::size_t p) {
+            for (p = s.find('\'', p+1); p != s.npos; p = s.find('\'', p+2)) {
+                if (p+1 >= s.size() || s[p+1] != '\'') break;
+            }
+
+            return p;
+        }
+
+        // Find the beginning of the comment in a header entry, ignoring the content of strings
+        inline std::size_t find_comment(const std::string& entry, std::size_t eqpos) {
+            std::size_t p = entry.find_first_not_of(' ', eqpos+1);
+            if (p != entry.npos && entry[p] == '\'') {
+                std::size_t q = find_closing_quote(entry, p);
+                if (q != entry.npos) return entry.find('/', q);
+            }
+
+            return entry.find('/', eqpos);
+        }
+    }
+}
+
 namespace fits {
     // Header keyword manipulation
     template<typename T>
@@ -813,7 +838,7 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(entry, eqpos);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
@@ -832,14 +857,14 @@ namespace fits {
             std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
             std::size_t eqpos = entry.find_first_of("=");
             if (eqpos == entry.npos) continue;
-            std::size_t cpos = entry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(entry, eqpos);
 
             std::string nam = trim(entry.substr(0, eqpos));
 
             if (nam == key) {
                 std::string value = trim(entry.substr(eqpos+1, cpos-eqpos-1));
-                if (value.find_first_of("'") == 0) {
-                    value = trim(value, "'");
+                if (value.size() >= 2 && value.front() == '\'' && value.back() == '\'') {
+                    value = trim(replace(value.substr(1, value.size()-2), "''", "'"));
                 }
                 v = value;
                 return true;
@@ -888,7 +913,7 @@ namespace fits {
             // Extract entry's name
             std::string nam = trim(tentry.substr(0, eqpos));
             // Look for comments
-            std::size_t cpos = tentry.find_first_of("/", eqpos);
+            std::size_t cpos = impl::fits_impl::find_comment(tentry, eqpos);
 
             if (nam == key) {
                 // The entry already exists
-- 
2.43.0


From 70ff540ed2cd0ba02e1897b635c4b050b8496134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:47 +0000
Subject: [PATCH 064/167] fix: fits::setkey() broke the last header entry if it
 contains 'END'

---
 include/vif/io/fits/base.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 72d8311..f375b66 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -897,9 +897,8 @@ namespace fits {
 
         // Insertion point
         std::size_t ipos = hdr.npos;
-        if (hdr.size() >= 80) {
-            ipos = hdr.substr(hdr.size() - 80, 80).find("END");
-            if (ipos != hdr.npos) ipos += hdr.size() - 80;
+        if (hdr.size() >= 80 && trim(hdr.substr(hdr.size() - 80, 80)) == "END") {
+            ipos = hdr.size() - 80;
         }
 
         // Look for existing entry in header
-- 
2.43.0


From c48be42622e0c893bdf750ed0675691c9fa7d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:47 +0000
Subject: [PATCH 065/167] fix: fits::parse_header() stopped at quotes inside
 strings, and read out of bounds for invalid CONTINUE entries

---
 include/vif/io/fits/base.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index f375b66..0128678 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -965,10 +965,12 @@ namespace fits {
                 auto& k = keys.back();
                 k.key = trim(lines[i]);
             } else if (lines[i].find("CONTINUE ") == 0) {
+                if (keys.empty()) continue;
+
                 auto& k = keys.back();
                 std::string right = trim(lines[i].substr(10));
                 if (!right.empty() && right[0] == '\'') {
-                    auto p2 = right.find_first_of('\'', 1);
+                    auto p2 = impl::fits_impl::find_closing_quote(right, 0);
                     std::string val;
                     if (p2 != std::string::npos) {
                         val = trim(right.substr(1, p2-1));
@@ -982,10 +984,10 @@ namespace fits {
                         k.value = k.value.substr(1, k.value.size()-2);
                     }
 
-                    if (k.value.back() == '&') {
+                    if (!k.value.empty() && k.value.back() == '&') {
                         k.value = k.value.substr(0, k.value.size()-1);
                     }
-                    if (val.back() == '&') {
+                    if (!val.empty() && val.back() == '&') {
                         val = val.substr(0, val.size()-1);
                     }
 
@@ -1010,7 +1012,7 @@ namespace fits {
                     std::string right = trim(lines[i].substr(p+1));
                     if (!right.empty()) {
                         if (right[0] == '\'') {
-                            auto p2 = right.find_first_of('\'', 1);
+                            auto p2 = impl::fits_impl::find_closing_quote(right, 0);
                             if (p2 != std::string::npos) {
                                 ++p2;
 
-- 
2.43.0


From 7c063ff6c92a979768a7b8dbb068c34b0bca46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:25 +0000
Subject: [PATCH 066/167] fix: fits::write(), write_table() and the update
 functions did not report errors when writing the last data

---
 include/vif/io/fits.hpp | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/include/vif/io/fits.hpp b/include/vif/io/fits.hpp
index ae42694..1c8dc19 100644
--- a/include/vif/io/fits.hpp
+++ b/include/vif/io/fits.hpp
@@ -10,6 +10,17 @@
 #ifndef NO_CFITSIO
 
 namespace vif {
+namespace impl {
+    namespace fits_impl {
+        // Close a file after writing to it, and make sure that everything was written
+        inline void close_output(file_base& file) {
+            file.close();
+            fits::vif_check_cfitsio(file.cfitsio_status(), "could not write data to '"+
+                file.filename()+"'");
+        }
+    }
+}
+
 namespace fits {
     // Return the number of dimensions of a FITS file
     // Note: will return 0 for FITS tables
@@ -123,11 +134,14 @@ namespace fits {
         fits::output_image img(filename);
         img.write(v);
         img.write_header(hdr);
+        impl::fits_impl::close_output(img);
     }
 
     template<std::size_t Dim, typename Type>
     void write(const std::string& filename, const vec<Dim,Type>& v) {
-        fits::output_image(filename).write(v);
+        fits::output_image img(filename);
+        img.write(v);
+        impl::fits_impl::close_output(img);
     }
 
     // Write an image in a FITS file
@@ -136,6 +150,7 @@ namespace fits {
         fits::image img(filename);
         img.reach_hdu(hdu);
         img.update(v);
+        impl::fits_impl::close_output(img);
     }
 
     // Read information about the columns of a FITS table
@@ -186,19 +201,25 @@ namespace fits {
     // Write several columns in a FITS file.
     template<typename ... Args>
     void write_table(const std::string& filename, const std::string& name, Args&& ... args) {
-        fits::output_table(filename).write_columns(name, std::forward<Args>(args)...);
+        fits::output_table tbl(filename);
+        tbl.write_columns(name, std::forward<Args>(args)...);
+        impl::fits_impl::close_output(tbl);
     }
 
     template<typename ... Args>
     void write_table(const std::string& filename, impl::ascii_impl::macroed_t,
         const std::string& names, Args&& ... args) {
-        fits::output_table(filename).write_columns(impl::ascii_impl::macroed_t{},
+        fits::output_table tbl(filename);
+        tbl.write_columns(impl::ascii_impl::macroed_t{},
             names, std::forward<Args>(args)...);
+        impl::fits_impl::close_output(tbl);
     }
 
     template<typename T, typename enable = typename std::enable_if<reflex::enabled<T>::value>::type>
     void write_table(const std::string& filename, const T& t) {
-        fits::output_table(filename).write_columns(t);
+        fits::output_table tbl(filename);
+        tbl.write_columns(t);
+        impl::fits_impl::close_output(tbl);
     }
 
     // Append an new column to an existing FITS table
@@ -206,19 +227,25 @@ namespace fits {
 
     template<typename ... Args>
     void update_table(const std::string& filename, const std::string& name, Args&& ... args) {
-        fits::table(filename).update_columns(name, std::forward<Args>(args)...);
+        fits::table tbl(filename);
+        tbl.update_columns(name, std::forward<Args>(args)...);
+        impl::fits_impl::close_output(tbl);
     }
 
     template<typename ... Args>
     void update_table(const std::string& filename, impl::ascii_impl::macroed_t,
         const std::string& names, Args&& ... args) {
-        fits::table(filename).update_columns(impl::ascii_impl::macroed_t{},
+        fits::table tbl(filename);
+        tbl.update_columns(impl::ascii_impl::macroed_t{},
             names, std::forward<Args>(args)...);
+        impl::fits_impl::close_output(tbl);
     }
 
     template<typename T, typename enable = typename std::enable_if<reflex::enabled<T>::value>::type>
     void update_table(const std::string& filename, const T& t) {
-        fits::table(filename).update_columns(t);
+        fits::table tbl(filename);
+        tbl.update_columns(t);
+        impl::fits_impl::close_output(tbl);
     }
 }
 }
-- 
2.43.0


From df74702b222400928ec4c086986be88d83bf40e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:25 +0000
Subject: [PATCH 067/167] fix: moving a FITS object forgot about the format of
 the table

---
 include/vif/io/fits/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 0128678..81a48a6 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -382,7 +382,7 @@ namespace impl {
             }
 
             file_base(file_base&& in) noexcept : type_(in.type_), rights_(in.rights_),
-                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_) {
+                filename_(in.filename_), fptr_(in.fptr_), status_(in.status_), format_(in.format_) {
                 in.fptr_ = nullptr;
             }
 
-- 
2.43.0


From 57df87bc1c8d939933addffb7e2fdcf49c0394cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:26 +0000
Subject: [PATCH 068/167] fix: FITS keyword functions used any of the keywords
 with the same name, not the first one

---
 include/vif/io/fits/base.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 81a48a6..4d90fa7 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -470,6 +470,13 @@ namespace impl {
                 return type != TFLOAT && !(type == TDOUBLE && std::is_same<T,double>::value);
             }
 
+            // Make sure CFITSIO finds the first keyword with a given name; by default it searches
+            // from the current position in the header
+            void rewind_header_() const {
+                int status = 0;
+                fits_movabs_key(fptr_, 1, &status);
+            }
+
             void get_table_format_() {
                 // Check if data exists
                 uint_t nhdu = hdu_count();
@@ -516,6 +523,7 @@ namespace impl {
                 char comment[80];
                 char content[80];
                 int status = 0;
+                rewind_header_();
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
                 return status == 0;
             }
@@ -526,6 +534,7 @@ namespace impl {
                 char comment[80];
                 char content[80];
                 int status = 0;
+                rewind_header_();
                 fits_read_keyword(fptr_, name.c_str(), content, comment, &status);
                 if (status != 0) return false;
 
@@ -741,6 +750,7 @@ namespace impl {
                 const std::string& com = "") {
                 check_is_open_();
 
+                rewind_header_();
                 fits_update_key(fptr_, traits<meta::decay_t<T>>::ttype,
                     name.c_str(), const_cast<T*>(&value),
                     const_cast<char*>(com.c_str()), &status_);
@@ -767,6 +777,7 @@ namespace impl {
 
                 }
 
+                rewind_header_();
                 fits_update_key(fptr_, TSTRING, name.c_str(),
                     const_cast<char*>(value.c_str()),
                     const_cast<char*>(com.c_str()), &status_);
@@ -786,6 +797,7 @@ namespace impl {
             void remove_keyword(const std::string& name) {
                 check_is_open_();
 
+                rewind_header_();
                 fits_delete_key(fptr_, name.c_str(), &status_);
                 status_ = 0; // don't care if the keyword doesn't exist or other errors
             }
-- 
2.43.0


From 25c6619826f81f88f6ff84a80dd58c4df424d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:12 +0000
Subject: [PATCH 069/167] fix: row-oriented FITS tables were read as empty
 right after writing them

---
 include/vif/io/fits/table.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index d3617b7..fde15d2 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -258,8 +258,10 @@ namespace fits {
 
             // Handle row-oriented tables
             if (format_ == table_format::row_oriented) {
-                uint_t nrow = 0;
-                read_keyword("NAXIS2", nrow);
+                // NB: the NAXIS2 keyword is not up to date if data was just written
+                long nrow = 0;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
                 ci.dims.push_back(nrow);
             }
 
@@ -642,9 +644,11 @@ namespace fits {
             }
 
             // Support loading row-oriented FITS tables (and ASCII)
-            uint_t nrow = 1;
+            // NB: the NAXIS2 keyword is not up to date if data was just written
+            long nrow = 1;
             if (format_ == table_format::row_oriented) {
-                read_keyword("NAXIS2", nrow);
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
                 if (naxis == 1 && axes[naxis-1] == 1 && type != TSTRING) {
                     axes[naxis-1] = nrow;
                 } else {
-- 
2.43.0


From 29498a56af73ab25b31d73c4dd181420d1e9185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:37 +0000
Subject: [PATCH 070/167] fix: fits::input_table::read_column_info() reported
 two dimensions for the one-dimensional columns of row-oriented tables

---
 include/vif/io/fits/table.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index fde15d2..3cf9b45 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -262,6 +262,10 @@ namespace fits {
                 long nrow = 0;
                 fits_get_num_rows(fptr_, &nrow, &status_);
                 fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
+                if (ci.dims.size() == 1 && ci.dims[0] == 1) {
+                    // One value per row, there is no other dimension
+                    ci.dims.clear();
+                }
                 ci.dims.push_back(nrow);
             }
 
-- 
2.43.0


From 377033a0672a50d9aa1fe3d102685d0642ffce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:59 +0000
Subject: [PATCH 071/167] fix: replacing the only column of a row-oriented FITS
 table by a shorter one kept the old number of rows

---
 include/vif/io/fits/table.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 3cf9b45..595dac8 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1306,11 +1306,11 @@ namespace fits {
 
             // If row-oriented and data already exists, check we have
             // the right number of rows before writing
-            if (cid > 1 && format_ == table_format::row_oriented) {
-                long nrow;
+            long nrow = 0;
+            if (format_ == table_format::row_oriented) {
                 fits_get_num_rows(fptr_, &nrow, &status_);
                 fits::vif_check_cfitsio(status_, "could not get number of rows in HDU");
-                vif_check(ndrow == uint_t(nrow), "incompatible number "
+                vif_check(cid == 1 || ndrow == uint_t(nrow), "incompatible number "
                     "of rows in '", tcolname, "' (expected ", nrow, ", got ", ndrow, ")");
             }
 
@@ -1323,6 +1323,12 @@ namespace fits {
             );
             fits::vif_check_cfitsio(status_, "could not create column '"+tcolname+"'");
 
+            if (format_ == table_format::row_oriented && uint_t(nrow) > ndrow) {
+                // This is the only column, forget about the rows of the previous columns
+                fits_delete_rows(fptr_, ndrow+1, nrow-ndrow, &status_);
+                fits::vif_check_cfitsio(status_, "could not remove rows in HDU");
+            }
+
             // Set TDIM keyword (if needed)
             write_column_write_tdim_(tcolname, cid, dims);
         }
@@ -1495,7 +1501,9 @@ namespace fits {
             // Need to set number of rows, because this is usually done
             // when writing the actual data.
             if (format_ == table_format::row_oriented && cid == 1) {
-                fits_insert_rows(fptr_, 0, value.dims[0], &status_);
+                long nrow;
+                fits_get_num_rows(fptr_, &nrow, &status_);
+                fits_insert_rows(fptr_, nrow, value.dims[0]-nrow, &status_);
                 fits::vif_check_cfitsio(status_,
                     "could not create all rows of columns '"+tcolname+"'");
             }
-- 
2.43.0


From 311fa60517d4ab77402c3624350ae9690e5557f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:20 +0000
Subject: [PATCH 072/167] fix: matrix::solve solved the transposed system

---
 include/vif/math/bits/matrix-functions.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 341c1b2..7f74301 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -712,6 +712,12 @@ namespace matrix {
         int info;
         vec<1,int> ipiv(n);
 
+        // LAPACK expects column-major matrices
+        for (uint_t i : range(alpha.dims[0]))
+        for (uint_t j : range(i+1, alpha.dims[0])) {
+            std::swap(alpha.safe(i,j), alpha.safe(j,i));
+        }
+
         lapack::dgesv_(&n, &nrhs, alpha.raw_data(), &lda, ipiv.raw_data(), beta.raw_data(),
             &ldb, &info);
         if (info != 0) {
-- 
2.43.0


From 54decf0b0434afc3e84979c618d236bab0b1f280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:20 +0000
Subject: [PATCH 073/167] fix: decompose_lu::invert without pivoting did not
 use the columns of the identity

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 7f74301..5032109 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -246,7 +246,7 @@ namespace matrix {
 
                         r.safe[k] = (i1 == k);
                     } else {
-                        r.safe[k] = 1.0;
+                        r.safe[k] = (k == c);
                     }
 
                     for (uint_t i : range(k)) {
-- 
2.43.0


From 7f9f5313a832b469e76eab8ef76291361d1a593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:20 +0000
Subject: [PATCH 074/167] fix: decompose_cholesky without LAPACK used the
 dimensions of a moved-from matrix

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 5032109..c7591c7 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -307,7 +307,7 @@ namespace matrix {
             l = std::move(alpha);
 
         #ifdef NO_LAPACK
-            const uint_t n = alpha.dims[0];
+            const uint_t n = l.dims[0];
             for (uint_t i : range(n)) {
                 for (uint_t j : range(i+1)) {
                     double s = 0.0;
-- 
2.43.0


From edcded07f6560ad49a06f3221694597a21823ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:20 +0000
Subject: [PATCH 075/167] fix: division of a matrix by a scalar did not compile

---
 include/vif/math/bits/matrix-types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index d140138..a26376d 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -550,7 +550,7 @@ namespace matrix {
         meta::is_matrix<TypeA>::value && std::is_arithmetic<typename std::decay<TypeB>::type>::value
     >::type>
     auto operator / (const TypeA& a, const TypeB& b) -> mat<decltype(a(0,0)/b)> {
-        return mat<decltype(a(0,0)/b)>(std::forward<TypeA>(a).base/b);
+        return mat<decltype(a(0,0)/b)>(a.base/b);
     }
 
     // matrix + matrix
-- 
2.43.0


From 8b26563add610723f696f12d8261421ba4f5d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:16 +0000
Subject: [PATCH 076/167] fix: xmatch_clean_best stopped the program on sources
 without any match

---
 include/vif/astro/qxmatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 88b0bca..d4b260e 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -647,7 +647,7 @@ namespace astro {
         c.lost.data.reserve(ngal/6);
 
         for (uint_t i = 0; i < ngal; ++i) {
-            if (r.rid[r.id[i]] == i) {
+            if (r.id[i] != npos && r.rid[r.id[i]] == i) {
                 c.id1.data.push_back(i);
                 c.id2.data.push_back(r.id[i]);
             } else {
-- 
2.43.0


From c52a66b5535c5b6c212a59b921d989468fd6dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:28 +0000
Subject: [PATCH 077/167] fix: qxmatch did not search the buckets in the far
 corners of the field

---
 include/vif/astro/qxmatch.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index d4b260e..f0545f7 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -53,7 +53,7 @@ namespace impl {
             std::size_t          max_depth;
 
             depth_cache(uint_t nx, uint_t ny, double cs) : csize(cs),
-                max_depth(std::max(nx, ny)) {
+                max_depth(ceil(sqrt(sqr(double(nx)) + sqr(double(ny))))) {
 
                 visited = vec2b(nx, ny);
                 depths.reserve(20);
@@ -87,8 +87,7 @@ namespace impl {
             }
 
             void grow() {
-                vif_check(depths.size() < visited.dims[0] ||
-                    depths.size() < visited.dims[1], "cannot grow past the size of the "
+                vif_check(depths.size() < max_depth, "cannot grow past the size of the "
                     "bucket field (", visited.dims, "; trying to reach ", depths.size(), ")");
 
                 depths.push_back(depth_t{});
-- 
2.43.0


From f53bcc1145779dfd9ed6491399ddd4a776beea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 078/167] fix: qxmatch could return the same source several
 times among the nearest neighbors

---
 include/vif/astro/qxmatch.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index f0545f7..a00463d 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -115,14 +115,17 @@ namespace impl {
                 }
 
                 // We have (+x,+y), fill the other 3 quadrants:
-                // (-x,+y), (-x,-y), (-x,+y)
-                vec1u idnew = indgen<uint_t>(depth.bx.size());
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, depth.by[idnew]);
-                append(depth.bx, -depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
-                append(depth.bx, depth.bx[idnew]);
-                append(depth.by, -depth.by[idnew]);
+                // (-x,+y), (-x,-y), (+x,-y)
+                // Buckets that lie on an axis are their own mirror image, do not repeat them.
+                vec1u idx  = where(depth.bx != 0);
+                vec1u idy  = where(depth.by != 0);
+                vec1u idxy = where(depth.bx != 0 && depth.by != 0);
+                append(depth.bx, -depth.bx[idx]);
+                append(depth.by, depth.by[idx]);
+                append(depth.bx, -depth.bx[idxy]);
+                append(depth.by, -depth.by[idxy]);
+                append(depth.bx, depth.bx[idy]);
+                append(depth.by, -depth.by[idy]);
             }
         };
     }
-- 
2.43.0


From d099f9f2bad5cbc2dddaf4cbf774ef08779bdfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:29 +0000
Subject: [PATCH 079/167] fix: linear qxmatch failed when the second catalog
 covers no area

---
 include/vif/astro/qxmatch.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index a00463d..8c81602 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -248,6 +248,12 @@ namespace astro {
             double cell_size = params.linear ? sqrt((rra2[1] - rra2[0])*(rdec2[1] - rdec2[0])) :
                 std::max(3600.0*sqrt(field_area_hull(hx, hy))/nc2, 1.0);
 
+            if (!(cell_size > 0.0)) {
+                // The second catalog covers no area (single source, or sources on a line)
+                cell_size = std::max(rra[1] - rra[0], rdec[1] - rdec[0]);
+                if (cell_size == 0.0) cell_size = 1.0;
+            }
+
             // Be careful that RA and Dec are spherical coordinates
             double dra, ddec;
             if (params.linear) {
-- 
2.43.0


From 7916419b53e4930d65b1709e8f20c60ea05d6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 080/167] fix: qxmatch could place a source outside of the grid
 of buckets because of rounding

---
 include/vif/astro/qxmatch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 8c81602..5592217 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -271,8 +271,8 @@ namespace astro {
             rdec[1] += ddec;
 
             // Final number of buckets
-            uint_t nra  = (rra[1]  - rra[0])/dra;
-            uint_t ndec = (rdec[1] - rdec[0])/ddec;
+            uint_t nra  = ceil((rra[1]  - rra[0])/dra);
+            uint_t ndec = ceil((rdec[1] - rdec[0])/ddec);
 
             // Build the buckets
             struct bucket_t {
-- 
2.43.0


From bbb8d83f1de46ad0710f83d1ffa9f0b0afdecf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:32 +0000
Subject: [PATCH 081/167] fix: qxmatch did not terminate on fields crossing
 RA=0

---
 include/vif/astro/qxmatch.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 5592217..4fc1b7a 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -230,9 +230,17 @@ namespace astro {
         }
 
         if (!params.brute_force) {
+            // RA is periodic: if the field crosses RA=0, work with negative RAs instead
+            vec1d bra1 = ra1, bra2 = ra2;
+            if (!params.linear &&
+                std::max(max(bra1), max(bra2)) - std::min(min(bra1), min(bra2)) > 180.0) {
+                bra1[where(bra1 > 180.0)] -= 360.0;
+                bra2[where(bra2 > 180.0)] -= 360.0;
+            }
+
             // Get bounds of the fields
-            vec1d rra1  = {min(ra1),  max(ra1)};
-            vec1d rra2  = {min(ra2),  max(ra2)};
+            vec1d rra1  = {min(bra1), max(bra1)};
+            vec1d rra2  = {min(bra2), max(bra2)};
             vec1d rdec1 = {min(dec1), max(dec1)};
             vec1d rdec2 = {min(dec2), max(dec2)};
 
@@ -283,13 +291,13 @@ namespace astro {
             vec<2,bucket_t> buckets(nra, ndec);
 
             // Fill the buckets
-            vec1u idx1 = floor((ra1 - rra[0])/dra);
+            vec1u idx1 = floor((bra1 - rra[0])/dra);
             vec1u idy1 = floor((dec1 - rdec[0])/ddec);
             for (uint_t i : range(ra1)) {
                 buckets(idx1[i],idy1[i]).ids1.push_back(i);
             }
 
-            vec1u idx2 = floor((ra2 - rra[0])/dra);
+            vec1u idx2 = floor((bra2 - rra[0])/dra);
             vec1u idy2 = floor((dec2 - rdec[0])/ddec);
             for (uint_t j : range(ra2)) {
                 buckets(idx2[j],idy2[j]).ids2.push_back(j);
-- 
2.43.0


From 772b64f390b4691ca0c4cdbe6bfe65ad58fdd459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:50 +0000
Subject: [PATCH 082/167] fix: multi-threaded qxmatch failed with fewer sources
 than threads

---
 include/vif/astro/qxmatch.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 4fc1b7a..4bedd85 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -492,12 +492,14 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg1[t]-_-(tend1[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tend1[t] > tbeg1[t]) {
+                        auto ids = tbeg1[t]-_-(tend1[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
-                    if (!params.no_mirror) {
-                        ids = tbeg2[t]-_-(tend2[t]-1);
+                    if (!params.no_mirror && tend2[t] > tbeg2[t]) {
+                        auto ids = tbeg2[t]-_-(tend2[t]-1);
                         res.rid.safe[ids] = vres[t].rid.safe[ids];
                         res.rd.safe[ids] = vres[t].rd.safe[ids];
                     }
@@ -601,9 +603,11 @@ namespace astro {
 
                 // Merge back the results of each thread
                 for (uint_t t = 0; t < params.thread; ++t) {
-                    auto ids = tbeg[t]-_-(tend[t]-1);
-                    res.id.safe(_,ids) = vres[t].id.safe(_,ids);
-                    res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    if (tend[t] > tbeg[t]) {
+                        auto ids = tbeg[t]-_-(tend[t]-1);
+                        res.id.safe(_,ids) = vres[t].id.safe(_,ids);
+                        res.d.safe(_,ids) = vres[t].d.safe(_,ids);
+                    }
 
                     if (!params.no_mirror) {
                         if (t == 0) {
-- 
2.43.0


From 154ea19cf0c84306b32b2636955ac1069f5a06b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 083/167] fix: subregion of an inverted region asked for a
 negative number of pixels

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..244ed09 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -116,6 +116,8 @@ namespace astro {
         subregion(v, reg, rr, rs);
 
         int_t nx = reg(2)-reg(0)+1, ny = reg(3)-reg(1)+1;
+        if (nx < 0) nx = 0;
+        if (ny < 0) ny = 0;
         vec<2,meta::rtype_t<TypeV>> sub = replicate(meta::rtype_t<TypeV>(def), nx, ny);
 
         sub.safe[rs] = v.safe[rr];
-- 
2.43.0


From 174950d8426a1f2b344e10ea95ae5ef0d447c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 084/167] fix: shift and translate_integer divided by zero on
 empty images

---
 include/vif/astro/image.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 244ed09..d8faa70 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -262,6 +262,8 @@ namespace astro {
 
     template<typename T>
     void inplace_shift(vec<2,T>& v, int_t tsx, int_t tsy) {
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
         if (tsx < 0) tsx = int_t(v.dims[0])+tsx;
@@ -292,6 +294,8 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
 
-- 
2.43.0


From 63a09bd641c17db2883d2013243061fa36ca7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 085/167] fix: translate_integer wrapped shifts larger than the
 image instead of blanking it

---
 include/vif/astro/image.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d8faa70..0b19f8d 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -296,8 +296,9 @@ namespace astro {
 
         if (v.empty()) return;
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        // Beyond the size of the image, there is nothing left to keep
+        tsx = std::max(-int_t(v.dims[0]), std::min(int_t(v.dims[0]), -tsx));
+        tsy = std::max(-int_t(v.dims[1]), std::min(int_t(v.dims[1]), -tsy));
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From 0f956964ddaec9f6ba7df8fb045326dfe324012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 086/167] fix: circular_mask missed apertures touching only the
 lower border and read out of bounds on empty images

---
 include/vif/astro/image.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 0b19f8d..168a2d9 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -368,11 +368,11 @@ namespace astro {
         vif_check(radius >= 0, "radius must be a positive number");
 
         // Identify the needed region
-        if (x+radius > 0 && y+radius > 0) {
+        if (!m.empty() && x+radius >= -0.5 && y+radius >= -0.5) {
             uint_t x0 = floor(x - radius) > 0         ? floor(x - radius) : 0;
             uint_t y0 = floor(y - radius) > 0         ? floor(y - radius) : 0;
-            uint_t x1 = ceil(x + radius)  < dims[0]-1 ? ceil(x + radius)  : dims[0]-1;
-            uint_t y1 = ceil(y + radius)  < dims[1]-1 ? ceil(y + radius)  : dims[1]-1;
+            uint_t x1 = ceil(x + radius)  < dims[0]-1 ? std::max(0.0, ceil(x + radius)) : dims[0]-1;
+            uint_t y1 = ceil(y + radius)  < dims[1]-1 ? std::max(0.0, ceil(y + radius)) : dims[1]-1;
 
             radius *= radius;
             for (uint_t ix = x0; ix <= x1; ++ix)
-- 
2.43.0


From 920f913db278121dc9dfc57e6196a4f97bc42725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 087/167] fix: radial_profile confused the centre and the
 radius of its annuli

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 168a2d9..1d790d8 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -401,8 +401,8 @@ namespace astro {
         uint_t hsy = img.dims[1]/2;
         res[0] = img(hsx,hsy);
         for (uint_t i : range(1u, npix)) {
-            vec2d mask = circular_mask(img.dims, double(hsx), double(hsy), i)*
-                (1.0 - circular_mask(img.dims, double(hsx), double(hsy), i-1));
+            vec2d mask = circular_mask(img.dims, i, double(hsx), double(hsy))*
+                (1.0 - circular_mask(img.dims, i-1, double(hsx), double(hsy)));
             res.safe[i] = total(mask*img)/total(mask);
         }
 
-- 
2.43.0


From 6790e918ffb680de8514f6ecb20e7dee123382b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 088/167] fix: boxcar read out of bounds for boxes larger than
 the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 1d790d8..413cd26 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -763,9 +763,9 @@ namespace astro {
         for (uint_t x = 0; x < img.dims[0]; ++x)
         for (uint_t y = 0; y < img.dims[1]; ++y) {
             uint_t x0 = x >= hsize ? x - hsize : 0;
-            uint_t x1 = x < img.dims[0]-hsize ? x + hsize : img.dims[0]-1;
+            uint_t x1 = x+hsize < img.dims[0] ? x + hsize : img.dims[0]-1;
             uint_t y0 = y >= hsize ? y - hsize : 0;
-            uint_t y1 = y < img.dims[1]-hsize ? y + hsize : img.dims[1]-1;
+            uint_t y1 = y+hsize < img.dims[1] ? y + hsize : img.dims[1]-1;
 
             vec<1,meta::rtype_t<T>> tmp;
             tmp.reserve((x1-x0)*(y1-y0));
-- 
2.43.0


From fe594743b4e639a8e8b7fbc6398e1ddc5495a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:45 +0000
Subject: [PATCH 089/167] fix: convolve2d ignored the last row and column of
 odd kernels

---
 include/vif/astro/image.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 413cd26..f75f954 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -528,13 +528,13 @@ namespace astro {
         vec2d tkernel(tmap.dims);
 
         // TODO: optimize this and catch case where kernel is larger than image
-        vec1u px1 = hsx + indgen<uint_t>(hsx);
-        vec1u py1 = hsy + indgen<uint_t>(hsy);
+        vec1u px1 = hsx + indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u py1 = hsy + indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u px2 = hsx - 1 - indgen<uint_t>(hsx);
         vec1u py2 = hsy - 1 - indgen<uint_t>(hsy);
 
-        vec1u ix1 = indgen<uint_t>(hsx);
-        vec1u iy1 = indgen<uint_t>(hsy);
+        vec1u ix1 = indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u iy1 = indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u ix2 = tmap.dims[0] - 1 - indgen<uint_t>(hsx);
         vec1u iy2 = tmap.dims[1] - 1 - indgen<uint_t>(hsy);
 
-- 
2.43.0


From 62db41fdbd1722f9f86f3ce0cf87e49cd6ce8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:48 +0000
Subject: [PATCH 090/167] fix: convolve2d_naive wrote out of bounds for kernels
 larger than the map

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index f75f954..53ad98b 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -450,9 +450,9 @@ namespace astro {
             if (kw == 0.0) continue;
 
             uint_t x0 = (kx >= hxsize ? 0 : hxsize-kx);
-            uint_t xn = map.dims[0] - (kx >= hxsize ? kx-hxsize : 0);
+            uint_t xn = map.dims[0] - (kx >= hxsize ? std::min(kx-hxsize, map.dims[0]) : 0);
             uint_t y0 = (ky >= hysize ? 0 : hysize-ky);
-            uint_t yn = map.dims[1] - (ky >= hysize ? ky-hysize : 0);
+            uint_t yn = map.dims[1] - (ky >= hysize ? std::min(ky-hysize, map.dims[1]) : 0);
 
             for (uint_t x = x0; x < xn; ++x)
             for (uint_t y = y0; y < yn; ++y) {
-- 
2.43.0


From f54d50c9b369c3beee2bdacbf23c4b8a466cc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:01 +0000
Subject: [PATCH 091/167] fix: convolver2d confused the dimensions of the map
 when padding it

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 53ad98b..35c2f53 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -680,10 +680,10 @@ namespace astro {
 
                 // Pad image to prevent issues with cyclic borders
                 for (uint_t ix : range(hsx)) {
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(ix,iy) = 0;
                     }
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(tmap.dims[0]-hsx+ix,iy) = 0;
                     }
                 }
-- 
2.43.0


From b8a879b010162500f4a2361a6e545147b892d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:11 +0000
Subject: [PATCH 092/167] fix: cyclic convolver2d did not normalise its result

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 35c2f53..a349483 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -708,6 +708,7 @@ namespace astro {
             if (cyclic) {
                 // Copy image data
                 map = std::move(tmap);
+                map /= cimg.size();
             } else {
                 // Copy image data and shrink back to original dimensions
                 for (uint_t ix : range(map.dims[0]))
-- 
2.43.0


From edd19c8ca649c1cf6bb31f03ece9432de0532e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:38 +0000
Subject: [PATCH 093/167] fix: moving a convolver2d destroyed its Fourier plans
 twice

---
 include/vif/astro/image.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index a349483..ebb3b92 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -570,8 +570,14 @@ namespace astro {
 
         convolver2d(const convolver2d&) = delete;
         convolver2d& operator=(const convolver2d&) = delete;
-        convolver2d(convolver2d&&) = default;
-        convolver2d& operator=(convolver2d&&) = default;
+        convolver2d(convolver2d&& c) : kernel_normal(c.kernel_normal),
+            kernel_fourier(std::move(c.kernel_fourier)), hsx(c.hsx), hsy(c.hsy),
+            pf(c.pf), pi(c.pi), pf_built(c.pf_built), pi_built(c.pi_built),
+            tmap(std::move(c.tmap)), cimg(std::move(c.cimg)), cyclic(c.cyclic) {
+            c.pf_built = false;
+            c.pi_built = false;
+        }
+        convolver2d& operator=(convolver2d&&) = delete;
 
         ~convolver2d() {
             std::lock_guard<std::mutex> lock(impl::fftw_planner_mutex());
-- 
2.43.0


From b46bfe3823ae165373999d0ef8b01e20ccc37de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 094/167] fix: segment appended to the output of a previous
 segmentation

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index ebb3b92..a70b31e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -919,6 +919,8 @@ namespace astro {
 
         vif_check(params.first_id > 0, "first ID must be > 0");
 
+        out = segment_output();
+
         uint_t id = params.first_id;
 
         std::vector<uint_t> oy, ox;
-- 
2.43.0


From 5787ae875dde335297203dcb2f3ae916112bb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:59 +0000
Subject: [PATCH 095/167] fix: segment counted several times pixels with more
 than one neighbour

---
 include/vif/astro/image.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index a70b31e..7ad8503 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -942,11 +942,11 @@ namespace astro {
             // This function sets a point as belonging to the current segment
             // and adds the neighboring points to a search list for inspection
             auto process_point = [&ox,&oy,&map,&smap,&out,id](uint_t ty, uint_t tx) {
-                map.safe(ty,tx) = 0;
                 smap.safe(ty,tx) = id;
 
                 auto check_add = [&ox,&oy,&map,&out](uint_t tty, uint_t ttx) {
                     if (map.safe(tty,ttx) != 0) {
+                        map.safe(tty,ttx) = 0; // set to zero to avoid adding it again
                         out.area.back() += 1u;
                         out.px.back() += ttx;
                         out.py.back() += tty;
@@ -963,6 +963,7 @@ namespace astro {
             };
 
             // Add the first point to the segment
+            map.safe(y,x) = 0;
             process_point(y, x);
 
             // While there are points to inspect, process them as well
-- 
2.43.0


From d26b756e6f850bde5fe8f79d0c8bf56405bf2e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:05 +0000
Subject: [PATCH 096/167] fix: foreach_segment listed the first pixel of each
 segment twice

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 7ad8503..c7bf330 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -876,6 +876,7 @@ namespace astro {
             vec1u tmid = mult_ids(seg, mids[s]);
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
+            visited[mids[s]] = curseg;
 
             while (!ox.empty()) {
                 vec1u tox = std::move(ox), toy = std::move(oy);
-- 
2.43.0


From 80bc010920a4ff6ab2d1d95eb5fdb0bebfb6608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:24 +0000
Subject: [PATCH 097/167] fix: segment_distance gave pixels to a segment other
 than the nearest one

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c7bf330..f6dcec7 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1398,6 +1398,8 @@ namespace astro {
                 while (!tox.empty()) {
                     uint_t ty = toy.back(); toy.pop_back();
                     uint_t tx = tox.back(); tox.pop_back();
+                    // Skip points which another segment has claimed in the meantime
+                    if (map.safe(ty,tx) != state.id) continue;
                     process_point(ty, tx);
                 }
             }
-- 
2.43.0


From 039fc91feff021f2cfa30ad961977428d699603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 098/167] fix: segment_deblend never segmented the faintest
 pixel and failed on empty images

---
 include/vif/astro/image.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index f6dcec7..8b71d29 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1045,6 +1045,11 @@ namespace astro {
         vec2u visited(img.dims);
         vec1u ox, oy;
 
+        if (img.empty()) {
+            out = segment_deblend_output();
+            return seg;
+        }
+
         vec1u sid = sort(img);
         uint_t ipos = sid.size()-1;
         while (!is_finite(img.safe[sid.safe[ipos]])) {
@@ -1057,8 +1062,8 @@ namespace astro {
 
         auto explore_neighbors = [&](uint_t ty, uint_t tx) {
             auto check_add = [&](uint_t tty, uint_t ttx) {
-                if (visited.safe(tty,ttx) != ipos) {
-                    visited.safe(tty,ttx) = ipos;
+                if (visited.safe(tty,ttx) != ipos+1) {
+                    visited.safe(tty,ttx) = ipos+1;
                     ox.push_back(ttx);
                     oy.push_back(tty);
                 }
@@ -1085,14 +1090,14 @@ namespace astro {
 
         uint_t id = params.first_id;
 
-        while (img[mid] >= params.detect_threshold && ipos > 0) {
+        while (is_finite(img[mid]) && img[mid] >= params.detect_threshold) {
             // Check neighboring pixels within the deblend threshold if one of them
             // already has been segmented, and if so give this pixel to that segment
             vec1u tmid = mult_ids(img, mid);
             ox.clear(); oy.clear();
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
-            visited[mid] = ipos;
+            visited[mid] = ipos+1;
 
             uint_t neib_seg = 0;
             double closest = dinf;
@@ -1132,6 +1137,8 @@ namespace astro {
                 ++id;
             }
 
+            if (ipos == 0) break;
+
             --ipos;
             mid = sid[ipos];
         }
-- 
2.43.0


From 5874f02f92fdec24763a77c597cfad9a2f3130e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:01 +0000
Subject: [PATCH 099/167] fix: segment_deblend counted the peak of each segment
 twice

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 8b71d29..d2a2022 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1180,6 +1180,7 @@ namespace astro {
                 oy.clear(); ox.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 while (!ox.empty()) {
                     vec1u tox = std::move(ox), toy = std::move(oy);
@@ -1236,6 +1237,7 @@ namespace astro {
                 ox.clear(); oy.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 vec1u sids;
                 sids.reserve(out.area[s]);
-- 
2.43.0


From c71b62cd88d69f05e6970351c3fe4055293de17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:21 +0000
Subject: [PATCH 100/167] fix: segment_deblend mixed its output with that of a
 previous segmentation

---
 include/vif/astro/image.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d2a2022..c8e69ba 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1045,10 +1045,9 @@ namespace astro {
         vec2u visited(img.dims);
         vec1u ox, oy;
 
-        if (img.empty()) {
-            out = segment_deblend_output();
-            return seg;
-        }
+        out = segment_deblend_output();
+
+        if (img.empty()) return seg;
 
         vec1u sid = sort(img);
         uint_t ipos = sid.size()-1;
@@ -1075,8 +1074,6 @@ namespace astro {
             if (tx != img.dims[1]-1) check_add(ty,tx+1);
         };
 
-        out.area.clear();
-        out.origin.clear();
         out.id.data.reserve(0.1*sqrt(img.size()));
         out.area.data.reserve(0.1*sqrt(img.size()));
         out.origin.data.reserve(0.1*sqrt(img.size()));
-- 
2.43.0


From de4f3e53e9a7ea3466bf2ec140825602be35fa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:24 +0000
Subject: [PATCH 101/167] fix: build_convex_hull accessed memory out of bounds
 when given no points

---
 include/vif/math/convex_hull.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 6851971..eba1a58 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -133,9 +133,9 @@ namespace vif {
         }
 
         uint_t t = k+1;
-        for (uint_t i = npt-2; i != npos; --i) {
-            while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i]) <= 0) --k;
-            res.safe[k] = ids.safe[i];
+        for (uint_t i = npt; i >= 2; --i) {
+            while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i-2]) <= 0) --k;
+            res.safe[k] = ids.safe[i-2];
             ++k;
         }
 
-- 
2.43.0


From 7b506951f9baa065c76eb723dd59ae0d86b67947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:29 +0000
Subject: [PATCH 102/167] fix: orientation of a convex hull whose first three
 vertices are aligned was always clockwise

---
 include/vif/math/convex_hull.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index eba1a58..dccea9f 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -51,8 +51,16 @@ namespace vif {
                 closed = (abs(x.safe[0] - x.safe[hend]) < eps &&
                      abs(y.safe[0] - y.safe[hend]) < eps);
 
-                orient = ((x.safe[1] - x.safe[0])*(y.safe[2] - y.safe[1]) -
-                         (y.safe[1] - y.safe[0])*(x.safe[2] - x.safe[1]) > 0) ? 1 : -1;
+                // Use the first vertices which are not aligned
+                orient = -1;
+                for (uint_t i : range(2, size())) {
+                    auto cross = (x.safe[i-1] - x.safe[0])*(y.safe[i] - y.safe[i-1]) -
+                                 (y.safe[i-1] - y.safe[0])*(x.safe[i] - x.safe[i-1]);
+                    if (cross != 0) {
+                        orient = cross > 0 ? 1 : -1;
+                        break;
+                    }
+                }
 
                 validated = true;
             }
-- 
2.43.0


From c88e4a97d81ac0adc640437851ccb9a492a18887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:35 +0000
Subject: [PATCH 103/167] fix: convex hulls with integer coordinates were never
 considered closed

---
 include/vif/math/convex_hull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index dccea9f..e004a46 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -48,8 +48,8 @@ namespace vif {
 
                 const auto eps = std::numeric_limits<T>::epsilon();
                 const uint_t hend = size()-1;
-                closed = (abs(x.safe[0] - x.safe[hend]) < eps &&
-                     abs(y.safe[0] - y.safe[hend]) < eps);
+                closed = (abs(x.safe[0] - x.safe[hend]) <= eps &&
+                     abs(y.safe[0] - y.safe[hend]) <= eps);
 
                 // Use the first vertices which are not aligned
                 orient = -1;
-- 
2.43.0


From 83ed2e96af9e3d2b8df93e6d04c826fe669dabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:27 +0000
Subject: [PATCH 104/167] fix: normalize_coordinates left declinations out of
 range after several turns

---
 include/vif/astro/astro.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6ba3596..0dd65bb 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -136,12 +136,8 @@ namespace astro {
     template<typename T, typename U, typename enable = typename std::enable_if<
         !meta::is_vec<T>::value && !meta::is_vec<U>::value>::type>
     void normalize_coordinates(T& ra, U& dec) {
-        while (dec > 90.0) {
-            dec = 180.0 - dec;
-            ra += 180.0;
-        }
-        while (dec < -90.0) {
-            dec = -180.0 - dec;
+        while (dec > 90.0 || dec < -90.0) {
+            dec = (dec > 0.0 ? 180.0 : -180.0) - dec;
             ra += 180.0;
         }
 
-- 
2.43.0


From fb9fecae796e4736b930b8105b74634bb0cb9417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:31 +0000
Subject: [PATCH 105/167] fix: vernal_angle compared an angle in radian to one
 in degree

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 0dd65bb..49a557d 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -170,7 +170,7 @@ namespace astro {
         double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
         double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
 
-        if (ra > 180.0) e = -e;
+        if (ra > dpi) e = -e;
 
         return e;
     }
-- 
2.43.0


From bbda8ce4dcd710f0394fa2085bcaa773a78577b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:37 +0000
Subject: [PATCH 106/167] fix: sex2deg lost the sign of angles between -1 and 0

---
 include/vif/astro/astro.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 49a557d..f5ece65 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1043,8 +1043,9 @@ namespace astro {
             return false;
         }
 
-        double signr = sign(rah);
-        double signd = sign(dech);
+        // The sign is not in the first number when it is "-0"
+        double signr = (starr1[0].find('-') != std::string::npos ? -1.0 : 1.0);
+        double signd = (starr2[0].find('-') != std::string::npos ? -1.0 : 1.0);
 
         ra = (rah + ram*signr/60.0 + ras*signr/3600.0)*15.0;
         dec = dech + decm*signd/60.0 + decs*signd/3600.0;
-- 
2.43.0


From 704ae256ef7773f4915cf95bed57b9cd4262713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:43 +0000
Subject: [PATCH 107/167] fix: deg2sex lost the sign of angles between -1 and 0

---
 include/vif/astro/astro.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index f5ece65..9bdafa3 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1074,18 +1074,16 @@ namespace astro {
     // Convert a set of degree coordinates into sexagesimal format ('hh:mm:ss.ms')
     inline void deg2sex(double ra, double dec, std::string& sra, std::string& sdec) {
         double signr = sign(ra);
-        ra /= 15.0*signr;
+        ra = std::abs(ra)/15.0;
         int_t  rah = ra;
         int_t  ram = (ra - rah)*60.0;
         double ras = ((ra - rah)*60 - ram)*60;
-        rah *= signr;
 
         double signd = sign(dec);
-        dec *= signd;
+        dec = std::abs(dec);
         int_t  dech = dec;
         int_t  decm = (dec - dech)*60.0;
         double decs = ((dec - dech)*60 - decm)*60;
-        dech *= signd;
 
         auto format_sec = [](double sec) {
             std::string s = to_string(sec);
@@ -1105,8 +1103,8 @@ namespace astro {
             }
         };
 
-        sra = to_string(rah)+':'+align_right(to_string(ram),2,'0')+':'+format_sec(ras);
-        sdec = to_string(dech)+':'+align_right(to_string(decm),2,'0')+':'+format_sec(decs);
+        sra = (signr < 0 ? "-" : "")+to_string(rah)+':'+align_right(to_string(ram),2,'0')+':'+format_sec(ras);
+        sdec = (signd < 0 ? "-" : "")+to_string(dech)+':'+align_right(to_string(decm),2,'0')+':'+format_sec(decs);
     }
 
     template<std::size_t Dim = 1, typename TSR = double, typename TSD = double,
-- 
2.43.0


From 2342522e0fc19c319f1c84d0b6318b1935f430fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:39 +0000
Subject: [PATCH 108/167] fix: deg2sex wrote malformed seconds below 1e-4

---
 include/vif/astro/astro.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 9bdafa3..2606cbc 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1087,6 +1087,11 @@ namespace astro {
 
         auto format_sec = [](double sec) {
             std::string s = to_string(sec);
+            if (s.find('e') != s.npos) {
+                // Too small for the default format, avoid the scientific notation
+                s = to_string(format::fixed(sec));
+            }
+
             auto p = s.find_first_of('.');
             if (p == s.npos) {
                 if (s.size() != 2) {
-- 
2.43.0


From 71bf9e1fe9f378df592149f0cee579666999ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:09 +0000
Subject: [PATCH 109/167] fix: vectors of random integers were not uniform and
 could leave the requested range

---
 include/vif/math/random.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 340be64..2e525d5 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -58,9 +58,14 @@ namespace vif {
     template<typename T, typename TMi, typename TMa, typename ... Args>
     auto randomi(T& seed, TMi mi, TMa ma, Args&& ... args) ->
         vec<meta::dim_total<Args...>::value,decltype(mi+ma)> {
-        auto v = randomu(seed, std::forward<Args>(args)...);
         using rtype = decltype(mi + ma);
-        return vec<meta::dim_total<Args...>::value,rtype>(v*(ma + 1 - mi) + mi);
+        vec<meta::dim_total<Args...>::value,rtype> v(std::forward<Args>(args)...);
+        std::uniform_int_distribution<rtype> distribution(mi, ma);
+        for (uint_t i : range(v)) {
+            v.safe[i] = distribution(seed);
+        }
+
+        return v;
     }
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
-- 
2.43.0


From 593f55f0249f574c5b89ee8f19b5c98984ba4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:44 +0000
Subject: [PATCH 110/167] fix: random_coin with zero probability could be true

---
 include/vif/math/random.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 2e525d5..28e0213 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -111,7 +111,7 @@ namespace vif {
     template<typename TSeed>
     bool random_coin(TSeed& seed, double prob) {
         std::uniform_real_distribution<double> distribution(0.0, 1.0);
-        return distribution(seed) <= prob;
+        return distribution(seed) < prob;
     }
 
     template<typename TSeed, uint_t D, typename T>
@@ -121,7 +121,7 @@ namespace vif {
         std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
         for (uint_t i : range(v)) {
-            v.safe[i] = distribution(seed) <= prob.safe[i];
+            v.safe[i] = distribution(seed) < prob.safe[i];
         }
 
         return v;
@@ -133,7 +133,7 @@ namespace vif {
         std::uniform_real_distribution<double> distribution(0.0, 1.0);
 
         for (uint_t i : range(v)) {
-            v.safe[i] = distribution(seed) <= prob;
+            v.safe[i] = distribution(seed) < prob;
         }
 
         return v;
-- 
2.43.0


From 6bd39d7a17b118c8da9f7e809e010686808317b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:44 +0000
Subject: [PATCH 111/167] fix: random_pdf read out of bounds if there are less
 probabilities than values

---
 include/vif/math/random.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/vif/math/random.hpp b/include/vif/math/random.hpp
index 28e0213..cdda897 100644
--- a/include/vif/math/random.hpp
+++ b/include/vif/math/random.hpp
@@ -70,6 +70,9 @@ namespace vif {
 
     template<typename T, typename TypeX = double, typename TypeY = double, typename ... Args>
     meta::rtype_t<TypeX> random_pdf(T& seed, const vec<1,TypeX>& px, const vec<1,TypeY>& py) {
+        vif_check(px.size() == py.size(), "incompatible dimensions for X and Y "
+            "(", px.dims, " vs. ", py.dims, ")");
+
         using rtype = meta::rtype_t<TypeX>;
         std::piecewise_linear_distribution<rtype> distribution(px.begin(), px.end(), py.begin());
         return distribution(seed);
@@ -79,6 +82,9 @@ namespace vif {
     vec<meta::dim_total<Args...>::value,meta::rtype_t<TypeX>> random_pdf(T& seed, const vec<1,TypeX>& px,
         const vec<1,TypeY>& py, Args&& ... args) {
 
+        vif_check(px.size() == py.size(), "incompatible dimensions for X and Y "
+            "(", px.dims, " vs. ", py.dims, ")");
+
         using rtype = meta::rtype_t<TypeX>;
         vec<meta::dim_total<Args...>::value,rtype> v(std::forward<Args>(args)...);
         std::piecewise_linear_distribution<rtype> distribution(px.begin(), px.end(), py.begin());
-- 
2.43.0


From 5641aa0a428649437ff2b85753c71508fff5687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:12 +0000
Subject: [PATCH 112/167] fix: linfit_nn never reported success, and returned
 NaN without positive models

---
 include/vif/math/linfit.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index a61d1d4..d5b1425 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -142,6 +142,9 @@ namespace vif {
             do {
                 ta = 0.0; tb = 0.0;
                 for (uint_t m0 : range(np)) {
+                    // A coefficient that is zero remains zero
+                    if (fr.params.safe[m0] == 0.0) continue;
+
                     double av = 0.0;
                     for (uint_t m1 : range(np)) {
                         av += alpha.safe(m0,m1)*fr.params.safe[m1];
@@ -158,9 +161,7 @@ namespace vif {
                 ++titer;
             } while (ta/tb > fit_tftol && titer < titermax);
 
-            if (titer == titermax) {
-                fr.success = false;
-            }
+            fr.success = titer < titermax;
 
             vec1d model(nm);
             for (uint_t m : range(nm)) {
-- 
2.43.0


From 2b62b7de379e636d2bf246380a6c8088ea3a6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:13 +0000
Subject: [PATCH 113/167] fix: linfit_batch read out of bounds with models of
 other dimensions

---
 include/vif/math/linfit.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index d5b1425..2afc495 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -348,6 +348,8 @@ namespace vif {
             uint_t nm = cache.dims[1];
 
             vif_check(i < np, "index goes beyond available models (", i, " vs. ", np, ")");
+            vif_check(meta::same_dims_or_scalar(ye, x), "incompatible dimensions between X and "
+                "YE arrays (", meta::dims(x), " vs. ", meta::dims(ye), ")");
 
             for (uint_t j : range(nm)) {
                 cache.safe(i,j) = x.safe[j]/ye.safe[j];
@@ -371,6 +373,17 @@ namespace vif {
 
         template<typename TypeX>
         linfit_batch_t(pack_tag, const TypeE& e, const TypeX& x) : ye(e) {
+            bool good = true;
+            for (uint_t i : range(ye.dims)) {
+                if (x.dims[i+1] != ye.dims[i]) {
+                    good = false;
+                    break;
+                }
+            }
+
+            vif_check(good, "incompatible dimensions between X and YE arrays (", x.dims,
+                " vs. ", ye.dims, ")");
+
             uint_t np = x.dims[0];
             uint_t nm = meta::size(ye);
 
-- 
2.43.0


From 8f077cdfe5aa7cdfe5f408c2f3a06b5b68651425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:24 +0000
Subject: [PATCH 114/167] fix: failures to remove a FITS column were ignored

---
 include/vif/io/fits/table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 595dac8..9542e3e 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -1535,9 +1535,10 @@ namespace fits {
             fits_get_colnum(fptr_, CASEINSEN, const_cast<char*>(colname.c_str()), &cid, &status_);
             if (status_ == 0) {
                 fits_delete_col(fptr_, cid, &status_);
+                fits::vif_check_cfitsio(status_, "could not remove column '"+colname+"'");
             }
 
-            status_ = 0; // ignore errors
+            status_ = 0; // nothing to do if the column does not exist
         }
 
         template<typename ... Args>
-- 
2.43.0


From 063458558e4301117155dbc5bd8c3a6110583e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:43 +0000
Subject: [PATCH 115/167] fix: FITS files without the requested type of data
 were left open

---
 include/vif/io/fits/base.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 4d90fa7..f5a1360 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -412,6 +412,13 @@ namespace impl {
                             break;
                     }
 
+                    int status = status_;
+                    if (status != 0) {
+                        // CFITSIO may have opened the file without finding the right data in it
+                        close();
+                        status_ = status;
+                    }
+
                     fits::vif_check_cfitsio(status_, "cannot open file '"+filename+"'");
                 }
 
-- 
2.43.0


From 15f9868d9ed3864b0e67b366f713bcf44503a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 116/167] fix: ad2xy and xy2ad truncated the second coordinate
 if the first is an integer

---
 include/vif/astro/wcs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 55290f3..1e89981 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -792,7 +792,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tra  = replicate(ra,  1);
-        vec<1,T> tdec = replicate(dec, 1);
+        vec<1,U> tdec = replicate(dec, 1);
         vec<1,V> tx;
         vec<1,W> ty;
 
@@ -812,7 +812,7 @@ namespace astro {
             "please enable the WCSLib library to use this function");
 #else
         vec<1,T> tx = replicate(x, 1);
-        vec<1,T> ty = replicate(y, 1);
+        vec<1,U> ty = replicate(y, 1);
         vec<1,V> tra;
         vec<1,W> tdec;
 
-- 
2.43.0


From 620847815e287cd1e831240bbed7c8b4863b3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 117/167] fix: filter_wcs duplicated keywords

---
 include/vif/astro/wcs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 1e89981..753adcb 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -223,6 +223,7 @@ namespace astro {
             for (auto& wk : keywords) {
                 if (begins_with(k, wk)) {
                     nkeys.push_back(k);
+                    break;
                 }
             }
         }
-- 
2.43.0


From 9dbb317b4beda668914db50ef5844583f1a774e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 118/167] fix: sky coordinates of data without RA or Dec axis
 were read out of bounds

---
 include/vif/astro/wcs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 753adcb..c3f7ec5 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -449,7 +449,7 @@ namespace astro {
             // Identify RA and Dec axis
             uint_t tx = find_axis("RA");
             uint_t ty = find_axis("DEC");
-            if (tx != npos && tx != npos) {
+            if (tx != npos && ty != npos) {
                 ra_axis = x_axis = tx;
                 dec_axis = y_axis = ty;
 
@@ -719,6 +719,7 @@ namespace astro {
 #else
 
         vif_check(w.is_valid(), "invalid WCS data");
+        vif_check(w.axis_count() >= 2, "WCS data has no RA and Dec axes");
         vif_check(ra.dims == dec.dims, "RA and Dec arrays do not match sizes (",
             ra.dims, " vs ", dec.dims, ")");
 
@@ -756,6 +757,7 @@ namespace astro {
 #else
 
         vif_check(w.is_valid(), "invalid WCS data");
+        vif_check(w.axis_count() >= 2, "WCS data has no RA and Dec axes");
         vif_check(x.dims == y.dims, "x and y arrays do not match sizes (",
             x.dims, " vs ", y.dims, ")");
 
-- 
2.43.0


From f178072ce6571feed341f35dda8359caf517566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 119/167] fix: wcs structures created from scratch were freed
 with the wrong function

---
 include/vif/astro/wcs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index c3f7ec5..c8227aa 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -361,7 +361,8 @@ namespace astro {
         uint_t ra_axis = 1, dec_axis = 0;
         uint_t x_axis = 1, y_axis = 0;
 
-        explicit wcs(uint_t naxis = 2) : w(new wcsprm), nwcs(1) {
+        explicit wcs(uint_t naxis = 2) :
+            w(static_cast<wcsprm*>(std::calloc(1, sizeof(wcsprm)))), nwcs(1) {
             w->flag = -1;
             wcsini(true, naxis, w);
 
-- 
2.43.0


From d3d79e3369756c09e84a5acd522cf283f935bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:04 +0000
Subject: [PATCH 120/167] fix: regrid_drizzle gave pixels crossing the edge of
 the image too much weight

---
 include/vif/astro/image.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c8e69ba..50af751 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1750,7 +1750,9 @@ namespace impl {
 
             uint_t ymax = tymax, xmax = txmax;
 
-            if (xmax == xmin && ymax == ymin) {
+            if (xmax == xmin && ymax == ymin &&
+                min(xps) >= xmin-0.5 && max(xps) <= xmin+0.5 &&
+                min(yps) >= ymin-0.5 && max(yps) <= ymin+0.5) {
                 // Original pixel is fully contained within destination pixel
                 add_flux(imgs, ix, iy, flux_frac, res, xmin, ymin);
                 wei.safe(ymin,xmin) += pixel_area;
-- 
2.43.0


From 4ca08e1af5866e174050c7f3d1cd7b63a4b47644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:00 +0000
Subject: [PATCH 121/167] fix: regrid_drizzle did not account for pixfrac in
 linearized transforms

---
 include/vif/astro/image.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 50af751..33b81d7 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -2127,10 +2127,12 @@ namespace astro {
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-                wei[idd] = 1.0;
+                wei[idd] = sqr(opts.pixfrac);
 
                 return res;
             }
+
+            pixel_area *= sqr(opts.pixfrac);
         }
 
         auto s2d = [&](double sx, double sy, double& dx, double& dy) {
-- 
2.43.0


From 47b3298ea6e1065a89cfcec2c87b74a891808391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 122/167] fix: regrid_interpolate ignored the first row and
 column with nearest interpolation

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 33b81d7..92b9a51 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1833,7 +1833,7 @@ namespace impl {
         template<typename T, typename U>
         bool regrid_nearest(const vec<2,T>& imgs, double xps, double yps, U& flx) {
             int_t mx = round(xps), my = round(yps);
-            if (mx > 0 && uint_t(mx) < imgs.dims[1] && my > 0 && uint_t(my) < imgs.dims[0]) {
+            if (mx >= 0 && uint_t(mx) < imgs.dims[1] && my >= 0 && uint_t(my) < imgs.dims[0]) {
                 flx = imgs.safe(uint_t(my), uint_t(mx));
                 return true;
             } else {
-- 
2.43.0


From 8b3acc9e55a8c5e876f239df6600586bbc0c4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:17 +0000
Subject: [PATCH 123/167] fix: regrid_interpolate mixed up the two images for
 integer translations

---
 include/vif/astro/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 92b9a51..ca8e51e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1952,7 +1952,7 @@ namespace astro {
                 int_t wy2 = ny-1 - wy1;
 
                 vec1u ids, idd;
-                subregion(res, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, idd, ids);
+                subregion(imgs, {dy-wy1, dx-wx1, dy+wy2, dx+wx2}, ids, idd);
 
                 res[_] = dnan;
                 impl::astro_impl::copy_subset(imgs, res, ids, idd);
-- 
2.43.0


From dadd6a17741c84679a739b3bf9e667deada178d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:32 +0000
Subject: [PATCH 124/167] fix: regrid_interpolate used the wrong axes of the
 destination if it is a cube

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index ca8e51e..10a05c8 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1908,8 +1908,8 @@ namespace astro {
 
         res = replicate(dnan, astrod.dims[astrod.y_axis], astrod.dims[astrod.x_axis]);
 
-        uint_t nx = astrod.dims[astros.x_axis];
-        uint_t ny = astrod.dims[astros.y_axis];
+        uint_t nx = astrod.dims[astrod.x_axis];
+        uint_t ny = astrod.dims[astrod.y_axis];
 
         // Precompute the projection of the new pixel grid on the old
         // Note: for the horizontal pixel 'i' of line 'j' (x_i,y_j), the grid is:
-- 
2.43.0


From 35fdb59b13f807a5a5adef23f2c34d7043e04170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:28 +0000
Subject: [PATCH 125/167] fix: headers of cutouts which are not covered had
 zero size

---
 include/vif/astro/image.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 10a05c8..c4e5376 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1567,6 +1567,12 @@ namespace astro {
                 }
             }
 
+            bool covered = !cut.empty();
+            if (!covered) {
+                // Source not covered, just use placeholder data
+                cut = replicate(def, 2*hs+1, 2*hs+1);
+            }
+
             if (gethdr) {
                 if (hdr.empty() && gethdr) {
                     // Source not covered, just use the first WCS header
@@ -1582,13 +1588,7 @@ namespace astro {
                 }
             }
 
-            if (cut.empty()) {
-                // Source not covered, just use placeholder data
-                cut = replicate(def, 2*hs+1, 2*hs+1);
-                return false;
-            }
-
-            return true;
+            return covered;
         }
 
     public:
-- 
2.43.0


From fb476e0f73c02ca4e4f9bba2eda90dddb647da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:03 +0000
Subject: [PATCH 126/167] fix: cutouts over several images kept the default
 value in pixels covered by another image

---
 include/vif/astro/image.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c4e5376..c197297 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1510,6 +1510,9 @@ namespace astro {
             int_t hs = max(1, ceil(0.5*size/aspix));
             double px = hs+1.0, py = hs+1.0;
 
+            // Pixels which are in none of the images
+            vec2b uncovered;
+
             for (uint_t i : range(imgs)) {
                 auto& iimg = imgs[i].img;
                 auto& w = imgs[i].w;
@@ -1528,6 +1531,7 @@ namespace astro {
                 }
 
                 vec<2,Type> data;
+                vec2b outside = replicate(false, 2*hs+1, 2*hs+1);
                 if (ix0 < 0 || ix1 >= int_t(dims[1]) || iy0 < 0 || iy1 >= int_t(dims[0])) {
                     // Source partially covered
                     data = replicate(def, 2*hs+1, 2*hs+1);
@@ -1542,6 +1546,8 @@ namespace astro {
 
                     uint_t x0 = int_t(tx0)-ix0, x1 = int_t(tx1)-ix0, y0 = int_t(ty0)-iy0, y1 = int_t(ty1)-iy0;
                     data(y0-_-y1,x0-_-x1) = std::move(subcut);
+                    outside = replicate(true, 2*hs+1, 2*hs+1);
+                    outside(y0-_-y1,x0-_-x1) = false;
                 } else {
                     // Source fully covered
                     int_t y0 = iy0, y1 = iy1, x0 = ix0, x1 = ix1;
@@ -1551,6 +1557,7 @@ namespace astro {
                 if (cut.empty()) {
                     // First image on which this source is found
                     cut = std::move(data);
+                    uncovered = outside;
 
                     // Initialize WCS
                     if (gethdr) {
@@ -1562,8 +1569,9 @@ namespace astro {
                     py = hs+1+(dyc-yc);
                 } else {
                     // This source was found on another image, combine the two
-                    vec1u idb = where(!is_finite(cut));
+                    vec1u idb = where((uncovered || !is_finite(cut)) && !outside);
                     cut[idb] = data[idb];
+                    uncovered[idb] = false;
                 }
             }
 
-- 
2.43.0


From ad26e8f8da95c8a5c149be2b6a0830c1b1070e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:23 +0000
Subject: [PATCH 127/167] fix: cutouts which are not covered kept the previous
 content of their header

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index c197297..d469cb1 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -1492,6 +1492,7 @@ namespace astro {
             double ra, double dec, double size, Type def) const {
 
             cut.clear();
+            hdr.clear();
 
             double ira = ra, idec = dec;
             if (dist) {
-- 
2.43.0


From 2abe46e28420eee966f943ae22c86e7f7423aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:46 +0000
Subject: [PATCH 128/167] fix: transition kernels were wrong for non-square
 images and not normalised

---
 include/vif/astro/image.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index d469cb1..96d8f7b 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -757,8 +757,16 @@ namespace astro {
 #else
         vec2cd cfrom = fft(from);
         vec2cd cto = fft(to);
-        cto(_-(cfrom.dims[1]/2),_) /= cfrom(_-(cfrom.dims[1]/2),_);
-        return shift(ifft(cto), cfrom.dims[0]/2, cfrom.dims[1]/2);
+        vif_check(from.dims == to.dims, "incompatible dimensions between the two images (",
+            from.dims, " vs. ", to.dims, ")");
+
+        // FFTW only stores the non-redundant coefficients, in the first elements of the array
+        const uint_t ncoef = from.dims[0]*(from.dims[1]/2+1);
+        for (uint_t i : range(ncoef)) {
+            cto.safe[i] /= cfrom.safe[i]*double(from.size());
+        }
+
+        return shift(ifft(cto), from.dims[0]/2, from.dims[1]/2);
 #endif
     }
 
-- 
2.43.0


From 0578b4b77eb6580b9c8816409dc557f597d02538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:56 +0000
Subject: [PATCH 129/167] fix: named 2D columns without content crashed
 ascii::write_table

---
 include/vif/io/ascii.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index 11d8dc1..aa937d7 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -820,9 +820,9 @@ namespace impl {
             std::string base = vnames[i];
 
             vec1s ncols = base+"_"+to_string_vector(indgen<uint_t>(v.dims[1])+1);
-            vnames.data.insert(vnames.data.begin()+i+1, ncols.begin()+1, ncols.end());
-            vnames[i] = ncols[0];
-            vnames.dims[0] += v.dims[1]-1;
+            vnames.data.erase(vnames.data.begin()+i);
+            vnames.data.insert(vnames.data.begin()+i, ncols.begin(), ncols.end());
+            vnames.dims[0] = vnames.data.size();
 
             write_table_hdr_fix_2d_(vnames, i+v.dims[1], args...);
         }
-- 
2.43.0


From 5916afdffa069f485b6f7500e1b32f36b46bb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:01 +0000
Subject: [PATCH 130/167] fix: stacking lost the sources on the last row or
 column of the image

---
 include/vif/astro/qstack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 4f6ab3f..75d671c 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -142,13 +142,13 @@ namespace astro {
                 long p1[2] = {long(round(img.x[i]+hsize)), long(round(img.y[i]+hsize))};
 
                 // Discard any source that falls out of the boundaries of the image
-                if (p1[0] < 1 || p0[0] >= img.width || p1[1] < 1 || p0[1] >= img.height) {
+                if (p1[0] < 1 || p0[0] > img.width || p1[1] < 1 || p0[1] > img.height) {
                     continue;
                 }
 
                 vec<2,Type> cut(2*hsize+1, 2*hsize+1);
 
-                if (p0[0] < 1 || p1[0] >= img.width || p0[1] < 1 || p1[1] >= img.height) {
+                if (p0[0] < 1 || p1[0] > img.width || p0[1] < 1 || p1[1] > img.height) {
                     // The source is overlapping with the edges of the map
                     // Extract what we can
                     cut[_] = fnan;
@@ -314,7 +314,7 @@ namespace astro {
             long p1[2] = {long(round(x[i]+hsize)), long(round(y[i]+hsize))};
 
             // Discard any source that falls out of the boundaries of the image
-            if (p0[0] < 1 || p1[0] >= width || p0[1] < 1 || p1[1] >= height) {
+            if (p0[0] < 1 || p1[0] > width || p0[1] < 1 || p1[1] > height) {
                 continue;
             }
 
-- 
2.43.0


From 3f27fae5198ec8cdf7cde1ca6086ee7aa90cf70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:29 +0000
Subject: [PATCH 131/167] fix: stacking an image and its weights by sections
 lost the offsets and could mix sources

---
 include/vif/astro/qstack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 75d671c..5ab7d57 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -231,7 +231,7 @@ namespace astro {
 
         if (ends_with(ffile, ".sectfits") || ends_with(wfile, ".sectfits")) {
             uint_t norig = ids.size();
-            qstack(ra, dec, ffile, hsize, cube, ids, params);
+            out = qstack(ra, dec, ffile, hsize, cube, ids, params);
             uint_t nsci = ids.size() - norig;
 
             vec1u tids; // trash weight IDs: they are already collected in 'ids'
@@ -241,7 +241,12 @@ namespace astro {
 
             // Make sure that all sources that were extracted in one file match those that
             // are extracted in the other (could only keep the union of the two, WIP)
-            vif_check(nsci == nwht, "some sources are covered on '", ffile, "' but not '", wfile, "'");
+            bool match = nsci == nwht;
+            for (uint_t i = 0; match && i < nwht; ++i) {
+                match = ids[norig+i] == tids[i];
+            }
+
+            vif_check(match, "some sources are covered on '", ffile, "' but not '", wfile, "'");
 
             return out;
         }
-- 
2.43.0


From af79567ebec6fae0f8a155b32b210f64a1763330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:17 +0000
Subject: [PATCH 132/167] fix: stacking ignored failures to read the images

---
 include/vif/astro/qstack.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 5ab7d57..b441b78 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -163,6 +163,7 @@ namespace astro {
                     long inc[2] = {1, 1};
                     fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0b, p1b, inc, &null,
                         subcut.raw_data(), &anynul, &img.status);
+                    fits::vif_check_cfitsio(img.status, "cannot read file '"+sects[iimg]+"'");
 
                     long x0 = p0b[0]-p0[0];
                     long x1 = p1b[0]-p0[0];
@@ -176,6 +177,7 @@ namespace astro {
                     long inc[2] = {1, 1};
                     fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                         cut.raw_data(), &anynul, &img.status);
+                    fits::vif_check_cfitsio(img.status, "cannot read file '"+sects[iimg]+"'");
                 }
 
                 // Discard any source that contains a bad pixel (either infinite or NaN)
@@ -332,8 +334,10 @@ namespace astro {
 
             fits_read_subset(fptr,  impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                 cut.raw_data(),  &anynul, &status);
+            fits::vif_check_cfitsio(status, "cannot read file '"+ffile+"'");
             fits_read_subset(wfptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                 wcut.raw_data(), &anynul, &status);
+            fits::vif_check_cfitsio(status, "cannot read file '"+wfile+"'");
 
             // Discard any source that contains a bad pixel (either infinite or NaN)
             if (!params.keep_nan && count(!is_finite(cut) || !is_finite(wcut)) != 0) {
-- 
2.43.0


From c05184f5b6cf375ca910c02ed30c8cc5d21a71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:54 +0000
Subject: [PATCH 133/167] fix: stacking on images with additional axes of
 length one read past the given corners

---
 include/vif/astro/qstack.hpp | 49 +++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index b441b78..7ee51f8 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -9,6 +9,33 @@
 namespace vif {
 namespace impl {
     namespace qstack_impl {
+        // Read a region of the 2D image contained in a file, whose other axes have length one
+        template<typename Type>
+        void read_subset(fitsfile* fptr, const long (&p0)[2], const long (&p1)[2],
+            vec<2,Type>& cut, int& status) {
+
+            int naxis = 0;
+            fits_get_img_dim(fptr, &naxis, &status);
+            vec<1,long> naxes(naxis);
+            fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
+
+            vec<1,long> b0(naxis), b1(naxis), inc(naxis);
+            uint_t found = 0;
+            for (uint_t i : range(naxis)) {
+                b0[i] = b1[i] = inc[i] = 1;
+                if (found < 2 && (naxis == 2 || naxes[i] > 1)) {
+                    b0[i] = p0[found];
+                    b1[i] = p1[found];
+                    ++found;
+                }
+            }
+
+            Type null = fnan;
+            int anynul = 0;
+            fits_read_subset(fptr, impl::fits_impl::traits<Type>::ttype, b0.raw_data(),
+                b1.raw_data(), inc.raw_data(), &null, cut.raw_data(), &anynul, &status);
+        }
+
         struct image_workspace {
             int status = 0;
             fitsfile* fptr = nullptr;
@@ -158,11 +185,7 @@ namespace astro {
 
                     vec<2,Type> subcut(p1b[0]-p0b[0]+1, p1b[1]-p0b[1]+1);
 
-                    Type null = fnan;
-                    int anynul = 0;
-                    long inc[2] = {1, 1};
-                    fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0b, p1b, inc, &null,
-                        subcut.raw_data(), &anynul, &img.status);
+                    impl::qstack_impl::read_subset(img.fptr, p0b, p1b, subcut, img.status);
                     fits::vif_check_cfitsio(img.status, "cannot read file '"+sects[iimg]+"'");
 
                     long x0 = p0b[0]-p0[0];
@@ -172,11 +195,7 @@ namespace astro {
                     cut(y0-_-y1,x0-_-x1) = subcut;
                 } else {
                     // The source is fully covered, easy
-                    Type null = fnan;
-                    int anynul = 0;
-                    long inc[2] = {1, 1};
-                    fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                        cut.raw_data(), &anynul, &img.status);
+                    impl::qstack_impl::read_subset(img.fptr, p0, p1, cut, img.status);
                     fits::vif_check_cfitsio(img.status, "cannot read file '"+sects[iimg]+"'");
                 }
 
@@ -328,15 +347,9 @@ namespace astro {
             vec<2,Type> cut(2*hsize+1, 2*hsize+1);
             vec<2,Type> wcut(2*hsize+1, 2*hsize+1);
 
-            Type null = fnan;
-            int anynul = 0;
-            long inc[2] = {1, 1};
-
-            fits_read_subset(fptr,  impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                cut.raw_data(),  &anynul, &status);
+            impl::qstack_impl::read_subset(fptr, p0, p1, cut, status);
             fits::vif_check_cfitsio(status, "cannot read file '"+ffile+"'");
-            fits_read_subset(wfptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
-                wcut.raw_data(), &anynul, &status);
+            impl::qstack_impl::read_subset(wfptr, p0, p1, wcut, status);
             fits::vif_check_cfitsio(status, "cannot read file '"+wfile+"'");
 
             // Discard any source that contains a bad pixel (either infinite or NaN)
-- 
2.43.0


From 01e186e4ef998addee176394850cba16926f12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:01 +0000
Subject: [PATCH 134/167] fix: stacking failed on sources between two pixels
 near the first row or column

---
 include/vif/astro/qstack.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 7ee51f8..6a43cb5 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -165,8 +165,8 @@ namespace astro {
             for (uint_t i : range(ra)) {
                 if (params.verbose) progress(pg);
 
-                long p0[2] = {long(round(img.x[i]-hsize)), long(round(img.y[i]-hsize))};
-                long p1[2] = {long(round(img.x[i]+hsize)), long(round(img.y[i]+hsize))};
+                long p0[2] = {long(round(img.x[i])-hsize), long(round(img.y[i])-hsize)};
+                long p1[2] = {long(round(img.x[i])+hsize), long(round(img.y[i])+hsize)};
 
                 // Discard any source that falls out of the boundaries of the image
                 if (p1[0] < 1 || p0[0] > img.width || p1[1] < 1 || p0[1] > img.height) {
@@ -336,8 +336,8 @@ namespace astro {
 
         // Loop over all sources
         for (uint_t i = 0; i < ra.size(); ++i) {
-            long p0[2] = {long(round(x[i]-hsize)), long(round(y[i]-hsize))};
-            long p1[2] = {long(round(x[i]+hsize)), long(round(y[i]+hsize))};
+            long p0[2] = {long(round(x[i])-hsize), long(round(y[i])-hsize)};
+            long p1[2] = {long(round(x[i])+hsize), long(round(y[i])+hsize)};
 
             // Discard any source that falls out of the boundaries of the image
             if (p0[0] < 1 || p1[0] > width || p0[1] < 1 || p1[1] > height) {
-- 
2.43.0


From 13d8d02708f01657925c4b2ed27d69e1faad8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:01 +0000
Subject: [PATCH 135/167] fix: moving the workspace of a stacked image
 initialised its coordinates from themselves

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 6a43cb5..b020d26 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -89,7 +89,7 @@ namespace impl {
 
             image_workspace(image_workspace&& i) : status(i.status), fptr(i.fptr),
                 width(i.width), height(i.height), astro(std::move(i.astro)),
-                x(std::move(x)), y(std::move(y)) {
+                x(std::move(i.x)), y(std::move(i.y)) {
                 i.fptr = nullptr;
             }
 
-- 
2.43.0


From ac96708509d038ffbac8c89e105f2c6b57740be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 136/167] fix: sed2flux read past the end of the SED, and
 refused SEDs ending where the filter ends

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 2606cbc..a024d5a 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1302,7 +1302,7 @@ namespace astro {
         vif_check(!lam.empty(), "second array cannot be empty");
 
         uint_t ised = lower_bound(lam, flam.safe[0]);
-        if (ised == npos) return dnan;
+        if (ised == npos || ised+1 == lam.size()) return dnan;
         uint_t ifil = 0;
 
         double plam = flam.safe[0];
@@ -1314,7 +1314,7 @@ namespace astro {
         while (ifil < nfil-1 && ised < nsed-1) {
             double nlam, nval;
 
-            if (flam.safe[ifil+1] < lam.safe[ised+1]) {
+            if (flam.safe[ifil+1] <= lam.safe[ised+1]) {
                 // Next point is from filter
                 ++ifil;
                 nlam = flam.safe[ifil];
-- 
2.43.0


From 6d9caf6217c9bc9d31956fe16292ef97f91ffbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 137/167] fix: sed_luminosity integrated beyond the requested
 wavelengths

---
 include/vif/astro/astro.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index a024d5a..57fa64f 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1371,11 +1371,11 @@ namespace astro {
     // The return value is in the same units as the input SED, i.e. most likely Lsun.
     template<typename TL, typename TS>
     double sed_luminosity(const vec<1,TL>& lam, const vec<1,TS>& sed, double l0, double l1) {
-        uint_t s = lower_bound(lam, l0);
-        uint_t e = upper_bound(lam, l1);
-        if (s == npos || e == npos) return dnan;
+        vif_check(lam.dims == sed.dims, "incompatible dimensions for wavelength and SED arrays "
+            "(", lam.dims, " vs. ", sed.dims, ")");
+        if (lam.empty() || !(lam.front() <= l0) || !(lam.back() >= l1)) return dnan;
 
-        return integrate(lam[s-_-e], sed[s-_-e]/lam[s-_-e]);
+        return integrate(lam, sed/lam, l0, l1);
     }
 
     // Compute the LIR luminosity of a rest-frame SED (8um to 1000um).
-- 
2.43.0


From ac3566e5b06de79843fb5e0f8930dbb962db5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 138/167] fix: make_psf used uninitialized values when the
 parameters are not numbers

---
 include/vif/astro/astro.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 57fa64f..5ab0b37 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1401,8 +1401,10 @@ namespace astro {
             }
 
             double amp, width;
-            from_string(params[1], amp);
-            from_string(params[2], width);
+            if (!from_string(params[1], amp) || !from_string(params[2], width)) {
+                error("could not read the arguments of the PSF model '", psf_model, "'");
+                return false;
+            }
 
             psf = generate_img(dims, [=](uint_t x, uint_t y) {
                 return amp*exp(-(sqr(double(x) - x0) + sqr(double(y) - y0))/(2*sqr(width)));
@@ -1421,11 +1423,12 @@ namespace astro {
             }
 
             double amp, width, rpos, rfrac, rwidth;
-            from_string(params[1], amp);
-            from_string(params[2], width);
-            from_string(params[3], rpos);
-            from_string(params[4], rfrac);
-            from_string(params[5], rwidth);
+            if (!from_string(params[1], amp) || !from_string(params[2], width) ||
+                !from_string(params[3], rpos) || !from_string(params[4], rfrac) ||
+                !from_string(params[5], rwidth)) {
+                error("could not read the arguments of the PSF model '", psf_model, "'");
+                return false;
+            }
 
             psf = generate_img(dims, [=](uint_t x, uint_t y) {
                 double r2 = sqr(double(x) - x0) + sqr(double(y) - y0);
-- 
2.43.0


From 89bcb550e5da9794eeb027b3e78e48bf7ed615f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 139/167] fix: cosmological distances of many redshifts failed
 when none or a single one is positive, and were zero when undefined

---
 include/vif/astro/astro.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 5ab0b37..7f801c9 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -398,19 +398,25 @@ namespace astro {
                 } \
                 return r; \
             } else { \
-                auto idz = where(z > 0); \
+                using rtype = meta::rtype_t<Type>; \
+                vec<Dim,rtype> r(z.dims); \
+                auto idz = where(z > 0 && is_finite(z)); \
+                for (uint_t i : where(!(z > 0 && is_finite(z)))) { \
+                    r[i] = name(rtype(z[i]), args...); \
+                } \
+                if (idz.empty()) return r; \
                 auto mi = min(z[idz]); \
                 auto ma = max(z[idz]); \
+                if (mi == ma) { \
+                    r[idz] = name(mi, args...); \
+                    return r; \
+                } \
                 auto tz = rgen_log(mi, ma, npt); \
-                using rtype = meta::rtype_t<Type>; \
                 vec<1,rtype> td(tz.dims); \
                 for (uint_t i : range(tz)) { \
                     td[i] = name(tz[i], args...); \
                 } \
-                vec<Dim,rtype> r(z.dims); \
                 r[idz] = interpolate(td, tz, z[idz]); \
-                idz = where(z <= 0); \
-                r[idz] = name(0.0, args...); \
                 return r; \
             } \
         }
-- 
2.43.0


From 3e55ecbf16fc13de380371e1df9b5ebe18e24b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 140/167] fix: pick_sources read outside of the image for
 sources between two pixels

---
 include/vif/astro/astro.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 7f801c9..fa22df1 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1258,13 +1258,16 @@ namespace astro {
 
         // Loop over all sources
         for (uint_t i = 0; i < x.size(); ++i) {
+            double rx = round(x[i]);
+            double ry = round(y[i]);
+
             // Discard any source that falls out of the boundaries of the image
-            if (x[i]-hsize < 1 || x[i]+hsize >= width || y[i] - hsize < 1 || y[i] + hsize >= height) {
+            if (!(rx-hsize >= 0 && rx+hsize < width && ry-hsize >= 0 && ry+hsize < height)) {
                 continue;
             }
 
-            uint_t ix = round(x[i]);
-            uint_t iy = round(y[i]);
+            uint_t ix = rx;
+            uint_t iy = ry;
 
             // TODO: (optimization) optimize this using subsrc?
             // TODO: fix this (will probably not compile because x and y are double)
-- 
2.43.0


From 20e7ffa184854c309f4c326115fd299fc7704acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 141/167] fix: psffit and srcsub swapped the dimensions of the
 PSF

---
 include/vif/astro/astro.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index fa22df1..45f43f5 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -232,7 +232,7 @@ namespace astro {
         using err_type = typename vec<2,TypeE>::effective_type;
         static const auto max_error = std::numeric_limits<meta::rtype_t<TypeE>>::max();
 
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
         err_type err = terr;
         if (err.dims[0] == 1 && err.dims[1] == 1) {
@@ -271,9 +271,9 @@ namespace astro {
 
     template<typename TypeM, typename TypeP = TypeM>
     void srcsub(vec<2,TypeM>& img, const vec<2,TypeP>& psf, double flux, const vec1i& pos) {
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
-        vec1i rr, rs;
+        vec1u rr, rs;
         subregion(img, {pos(0)-hx, pos(1)-hy, pos(0)+hx, pos(1)+hy}, rr, rs);
         img[rr] -= flux*psf[rs];
     }
-- 
2.43.0


From 1c1d40d100c6ebfe19b17cc26d2ae42a33c9a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:47 +0000
Subject: [PATCH 142/167] fix: mag2lsun and randpos_uniform_box had parameters
 that cannot be deduced

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 45f43f5..aa0bdba 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -474,7 +474,7 @@ namespace astro {
     // Absolute magnitude [AB] to absolute luminosity [Lsun] using rest-frame wavelength
     // 'lam' [um]
     template<typename T, typename U>
-    auto mag2lsun(const T& lam, const T& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
+    auto mag2lsun(const T& lam, const U& mag, double zp = 23.9) -> decltype(e10(mag)/lam) {
         const double Mpc = 3.0856e22; // [m/Mpc]
         const double Lsol = 3.839e26; // [W/Lsol]
         const double uJy = 1.0e32;    // [uJy/(W.m-2.Hz-1)]
@@ -742,7 +742,7 @@ namespace astro {
         return true;
     }
 
-    template<typename TX, typename TY, typename TSeed, typename F>
+    template<typename TX, typename TY, typename TSeed>
     void randpos_uniform_box(TSeed& seed, uint_t nsrc, vec1d rx, vec1d ry,
         vec<1,TX>& x, vec<1,TY>& y) {
 
-- 
2.43.0


From b1ed7b2aab2efd533a3804d8d766f464b839197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:28 +0000
Subject: [PATCH 143/167] fix: cosmological functions were truncated to
 integers for integer redshifts

---
 include/vif/astro/astro.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index aa0bdba..743fc2c 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -336,10 +336,14 @@ namespace astro {
         return {"std", "wmap", "plank"};
     }
 
+    // Type of the values returned by the functions below (integers cannot represent them).
+    template<typename T>
+    using cosmo_rtype_t = typename std::conditional<std::is_integral<T>::value, double, T>::type;
+
     // Proper size of an object in [kpc/arcsec] as a function of redshift 'z'.
     // Uses lumdist() internally.
     template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
-    T propsize(const T& z, const cosmo_t& cosmo) {
+    cosmo_rtype_t<T> propsize(const T& z, const cosmo_t& cosmo) {
         if (z <= 0) return dinf;
 
         return (1.0/3.6)*(dpi/180.0)*lumdist(z, cosmo)/pow(1.0+z, 2.0);
@@ -351,11 +355,11 @@ namespace astro {
     // Note that this function is costly. If you need to compute it for many redshift values, you are
     // advised to use the interpolated version below.
     template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
-    T lumdist(const T& z, const cosmo_t& cosmo) {
+    cosmo_rtype_t<T> lumdist(const T& z, const cosmo_t& cosmo) {
         if (z <= 0) return 0.0;
-        return (1.0+z)*(2.99792458e5/cosmo.H0)*integrate_func([&](T t) {
+        return (1.0+z)*(2.99792458e5/cosmo.H0)*integrate_func([&](cosmo_rtype_t<T> t) {
             return pow(pow((1.0+t),3)*cosmo.wm + cosmo.wL, -0.5);
-        }, 0, z);
+        }, 0, cosmo_rtype_t<T>(z));
     }
 
     // Lookback time [Gyr] as a function of redshift 'z'.
@@ -363,11 +367,11 @@ namespace astro {
     // Note that this function is costly. If you need to compute it for many redshift values, you are
     // advised to use the interpolated version below.
     template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
-    T lookback_time(const T& z, const cosmo_t& cosmo) {
+    cosmo_rtype_t<T> lookback_time(const T& z, const cosmo_t& cosmo) {
         if (z <= 0) return 0.0;
-        return (3.09/(cosmo.H0*3.155e-3))*integrate_func([&](T t) {
+        return (3.09/(cosmo.H0*3.155e-3))*integrate_func([&](cosmo_rtype_t<T> t) {
             return pow(pow((1+t),3)*cosmo.wm + cosmo.wL + pow(1+t,2)*cosmo.wk, -0.5)/(1+t);
-        }, 0, z);
+        }, 0, cosmo_rtype_t<T>(z));
     }
 
     // Volume of the universe [Mpc^3] within a sphere of redshift 'z'.
@@ -376,7 +380,7 @@ namespace astro {
     // Note that this function is costly. If you need to compute it for many redshift values, you are
     // advised to use the interpolated version below.
     template<typename T, typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
-    T vuniverse(const T& z, const cosmo_t& cosmo) {
+    cosmo_rtype_t<T> vuniverse(const T& z, const cosmo_t& cosmo) {
         if (z <= 0) return 0.0;
         return (4.0/3.0)*dpi*pow(lumdist(z, cosmo)/(1.0+z), 3);
     }
@@ -389,16 +393,15 @@ namespace astro {
     // argument to the vectorization macro.
     #define VECTORIZE_INTERPOL(name, npt) \
         template<std::size_t Dim, typename Type, typename ... Args> \
-        typename vec<Dim,Type>::effective_type name(const vec<Dim,Type>& z, const Args& ... args) { \
+        vec<Dim,cosmo_rtype_t<meta::rtype_t<Type>>> name(const vec<Dim,Type>& z, const Args& ... args) { \
+            using rtype = cosmo_rtype_t<meta::rtype_t<Type>>; \
             if (z.size() < 2*npt) { \
-                using rtype = meta::rtype_t<Type>; \
                 vec<Dim,rtype> r = z; \
                 for (auto& t : r) { \
                     t = name(t, args...); \
                 } \
                 return r; \
             } else { \
-                using rtype = meta::rtype_t<Type>; \
                 vec<Dim,rtype> r(z.dims); \
                 auto idz = where(z > 0 && is_finite(z)); \
                 for (uint_t i : where(!(z > 0 && is_finite(z)))) { \
-- 
2.43.0


From d2025c78ac458dd3cba3de885b694797fffc9f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:57 +0000
Subject: [PATCH 144/167] fix: angcorrel counted each position as a pair with
 itself and was biased for small samples

---
 include/vif/astro/astro.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 743fc2c..bf48725 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -689,6 +689,7 @@ namespace astro {
 
         for (uint_t i : range(ra)) {
             vec1d d = angdist(ra, dec, ra[i], dec[i]);
+            d.safe[i] = dnan; // not a pair
             dd += histogram(d, bins);
 
             d = angdist(rra, rdec, ra[i], dec[i]);
@@ -697,11 +698,12 @@ namespace astro {
 
         for (uint_t i : range(rra)) {
             vec1d d = angdist(rra, rdec, rra[i], rdec[i]);
+            d.safe[i] = dnan; // not a pair
             rr += histogram(d, bins);
         }
 
-        double norm1 = rra.size()/double(ra.size());
-        double norm2 = norm1*((rra.size() - 1.0)/(ra.size() - 1.0));
+        double norm1 = (rra.size() - 1.0)/double(ra.size());
+        double norm2 = norm1*(rra.size()/(ra.size() - 1.0));
         return ((dd*norm2 - dr*norm1) + (rr - dr*norm1))/rr;
     }
 
-- 
2.43.0


From afa80a506910effee9cb47d9643adcd58f6571dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 145/167] fix: physical DS9 regions were written shifted by one
 pixel

---
 include/vif/astro/ds9.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 7b46bf1..43da09f 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -306,7 +306,13 @@ namespace impl {
 namespace astro {
 namespace ds9 {
     inline void write_region(std::ofstream& out, const std::string& ss,
-        const vif::astro::ds9::region& r) {
+        vif::astro::ds9::region r) {
+
+        if (r.physical && r.params.size() >= 2) {
+            // Add 1 to X and Y to go from C++ convention to FITS convention
+            r.params[0] += 1.0;
+            r.params[1] += 1.0;
+        }
 
         if (r.type == "circle") {
             out << r.type << "(" << r.params[0] << ", " << r.params[1] << ", " <<
-- 
2.43.0


From 71c961dd434db545737dea73a91e7d8db4433301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 146/167] fix: DS9 regions in sky coordinates following
 physical ones were read as physical

---
 include/vif/astro/ds9.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 43da09f..6a23fe6 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -40,7 +40,13 @@ namespace ds9 {
 
             auto spos = line.find_first_of('(');
             if (spos == line.npos) {
-                if (trim(line) == "physical") physical = true;
+                std::string system = trim(line, " \t\r\n;");
+                if (system == "physical") {
+                    physical = true;
+                } else if (is_any_of(system, vec1s{"fk4", "b1950", "fk5", "j2000", "icrs",
+                    "galactic", "ecliptic", "wcs"})) {
+                    physical = false;
+                }
                 continue;
             }
 
-- 
2.43.0


From 17990962eb6306cef50f824ebdf792e00004a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:08 +0000
Subject: [PATCH 147/167] fix: the text of DS9 regions was cut at its first
 space

---
 include/vif/astro/ds9.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/ds9.hpp b/include/vif/astro/ds9.hpp
index 6a23fe6..a7ada17 100644
--- a/include/vif/astro/ds9.hpp
+++ b/include/vif/astro/ds9.hpp
@@ -172,7 +172,18 @@ namespace ds9 {
                 pos = line.find(key, spos+1);
                 if (pos != line.npos) {
                     pos += key.size();
-                    r.text = trim(line.substr(pos, line.find_first_of(" \t", pos)-pos));
+                    auto open = std::string("{\"'").find(line[pos]);
+                    auto end = line.npos;
+                    if (pos < line.size() && open != line.npos) {
+                        // Text in quotes can contain spaces
+                        end = line.find("}\"'"[open], pos+1);
+                    }
+
+                    if (end != line.npos) {
+                        r.text = line.substr(pos+1, end-(pos+1));
+                    } else {
+                        r.text = trim(line.substr(pos, line.find_first_of(" \t", pos)-pos));
+                    }
                 }
             }
 
-- 
2.43.0


From afc88ea1bdfe5bff8711bd979a31c05753d81da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 148/167] fix: mpfit never moved parameters towards their
 limit, even when they are not at the limit

---
 include/vif/math/mpfit.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index dea5498..9df205b 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -573,12 +573,14 @@ namespace vif {
         while (true) {
             fjac = mpfit_fdjac2(deviate, xall, ifree, x, fvec, options);
 
-            // Set derivatives of frozen parameters to zero
+            // Set derivatives of the parameters which are pegged at their limits to zero
+            vec1u ilpeg = where(x == llim);
+            vec1u iupeg = where(x == ulim);
             for (uint_t p : range(n)) {
-                if (!is_nan(llim[p]) && total(fvec*fjac(p,_)) > 0.0) {
+                if (x[p] == llim[p] && total(fvec*fjac(p,_)) > 0.0) {
                     fjac(p,_) = 0.0;
                 }
-                if (!is_nan(ulim[p]) && total(fvec*fjac(p,_)) < 0.0) {
+                if (x[p] == ulim[p] && total(fvec*fjac(p,_)) < 0.0) {
                     fjac(p,_) = 0.0;
                 }
             }
@@ -670,8 +672,8 @@ namespace vif {
                     // we should take a step in the same direction but shorter distance.
                     // The step should take us right to the limit in that case.
                     if (anylim) {
-                        wa1[ilow] = max(wa1[ilow], 0.0);
-                        wa1[iup] = min(wa1[iup], 0.0);
+                        wa1[ilpeg] = max(wa1[ilpeg], 0.0);
+                        wa1[iupeg] = min(wa1[iupeg], 0.0);
 
                         vec1b dwa1 = abs(wa1) > eps;
                         vec1u whl = where(dwa1 && x + wa1 < llim);
-- 
2.43.0


From 52b62a3e97257e3907f306aa7af2f226103cf18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:14 +0000
Subject: [PATCH 149/167] fix: mpfit aborted when all the parameters are frozen

---
 include/vif/math/mpfit.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/vif/math/mpfit.hpp b/include/vif/math/mpfit.hpp
index 9df205b..f3eba1f 100644
--- a/include/vif/math/mpfit.hpp
+++ b/include/vif/math/mpfit.hpp
@@ -560,6 +560,20 @@ namespace vif {
         const uint_t npt = fvec.size();
 
         res.dof = npt - n;
+
+        if (n == 0u) {
+            // Nothing to fit
+            res.chi2 = sqr(fnorm);
+            res.iter = 0;
+            res.params = xall;
+            if (!options.nocovar) {
+                res.covar.resize(xall.size(), xall.size());
+                res.errors.resize(xall.size());
+            }
+
+            return res;
+        }
+
         uint_t iter = 1u;
         double factor = 100.0;
         double delta = dnan;
-- 
2.43.0


From 1b26d225cf78570db3f949b940708ed744c62df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 150/167] fix: template_observed could not be used with several
 redshifts (it did not compile)

---
 include/vif/astro/template_fit.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 312e74f..1269bcb 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -49,7 +49,10 @@ namespace astro {
         for (uint_t i = 0; i < z.size(); ++i) {
             auto tlam = lib.lam*(1.0 + z[i]);
             auto tsed = lsun2uJy(z[i], d[i], lib.lam, lib.sed);
-            tlib.sed += interpolate(tsed, tlam, tlib.lam);
+            for (uint_t s : range(lib.sed.dims[0])) {
+                vec1d slam = tlam(s,_), ssed = tsed(s,_), nlam = tlib.lam(s,_);
+                tlib.sed(s,_) += interpolate(ssed, slam, nlam);
+            }
         }
 
         tlib.sed /= z.size();
-- 
2.43.0


From bf9a5960d97835a964d96271300ea80e6903d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:38 +0000
Subject: [PATCH 151/167] fix: multi_template_fit ignored all templates after
 the first which is rejected or degenerate

---
 include/vif/astro/template_fit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 1269bcb..77e5ce5 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -407,7 +407,10 @@ namespace astro {
 
             vec1u ilib = replicate(0, nlib);
             for (uint_t i : range(nseds)) {
-                if (!constraints(ilib)) continue;
+                if (!constraints(ilib)) {
+                    increment_index_list(ilib, nsed);
+                    continue;
+                }
 
                 vec2f tpls(nlib, nfilter);
                 for (uint_t l : range(nlib)) {
@@ -483,6 +486,7 @@ namespace astro {
                     }
 
                     if (!inplace_invert_symmetric(alpha)) {
+                        increment_index_list(ilib, nsed);
                         continue;
                     }
 
-- 
2.43.0


From 6d8e42afd5b15bd175bf36bb56cbb6f041360114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 152/167] fix: multi_template_fit multiplied the best-fit
 fluxes by the uncertainties with upper limits

---
 include/vif/astro/template_fit.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 77e5ce5..12849bb 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -539,7 +539,11 @@ namespace astro {
         res.flux.resize(nlib, nfilter);
         if (is_finite(res.chi2)) {
             for (uint_t l : range(nlib)) {
-                res.flux(l,_) = res.amp[l]*convflux[l](res.bfit[l],_)*err;
+                res.flux(l,_) = res.amp[l]*convflux[l](res.bfit[l],_);
+                if (!params.ulim) {
+                    // The template fluxes were divided by the uncertainties
+                    res.flux(l,_) *= err;
+                }
             }
         } else {
             res.bfit = replicate(npos, nlib);
-- 
2.43.0


From 6ce9b6c39bfc90a94c24888eafd6cf7029368f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 153/167] fix: multi_template_fit could not be called without
 constraints (it did not compile)

---
 include/vif/astro/template_fit.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 12849bb..2e011f9 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -363,7 +363,7 @@ namespace astro {
     };
 
     template<typename TLibs, typename TFi, typename TypeSeed,
-        typename TZ, typename TD, typename TConst>
+        typename TZ, typename TD, typename TConst = bool (*)(const vec1u&)>
     multi_template_fit_res_t multi_template_fit(const TLibs& libs, TypeSeed& seed, const TZ& z,
        const TD& d, vec1d flux, vec1d err,
        const vec<1,TFi>& filters, multi_template_fit_params params = multi_template_fit_params(),
-- 
2.43.0


From 0baf1b9f9c18f6d935264d182d3e906c0eb35d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:25 +0000
Subject: [PATCH 154/167] fix: the weight of upper limits had errors up to
 1.4%, instead of the documented 0.3%

---
 include/vif/astro/template_fit.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/astro/template_fit.hpp b/include/vif/astro/template_fit.hpp
index 2e011f9..68a8385 100644
--- a/include/vif/astro/template_fit.hpp
+++ b/include/vif/astro/template_fit.hpp
@@ -63,8 +63,8 @@ namespace astro {
 
     // Return the weight of an upper limit in a chi2 merit function.
     // Note that the analytical relation is numerically imprecise, and an asymptotic expression should
-    // be used below -3. This function contains this approximation, which introduces at most an error of
-    // 0.3%.
+    // be used below -10. This function contains this approximation, which introduces at most an error
+    // of 0.3%.
     // Assuming: d = (limit - model)/error
     // Also note that this function can also give the weight of a *lower* limit simply by using
     // d = (model - limit)/error.
@@ -74,7 +74,7 @@ namespace astro {
     // the upper limit weight is given by an error function
     //            0.5 + 0.5*erf(-(measure - limit)/(sqrt(2.0)*error))
     double limweight(double d) {
-        return d < -3.0 ? d*d + 2.0*log(-2.0*sqrt(dpi/2.0)*d) : -2.0*log(0.5*(1.0 + erf(d/sqrt(2.0))));
+        return d < -10.0 ? d*d + 2.0*log(-2.0*sqrt(dpi/2.0)*d) : -2.0*log(0.5*std::erfc(-d/sqrt(2.0)));
     }
 
     template<std::size_t Dim, typename Type>
-- 
2.43.0


From 1a6eb510c5439aa94f50bd44978a22d53c790ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 155/167] fix: vernal_angle and angrot_vernal returned NaN on
 the RA=0 meridian and at the poles

The argument of asin() can be larger than one by rounding, and vernal_angle divided zero by zero at the origin.
---
 include/vif/astro/astro.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index bf48725..f015baf 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -167,12 +167,8 @@ namespace astro {
         ra *= dpi/180;
         dec *= dpi/180;
 
-        double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
-        double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
-
-        if (ra > dpi) e = -e;
-
-        return e;
+        double y = cos(dec)*sin(ra), z = sin(dec);
+        return (180/dpi)*(y < 0 ? atan2(-z, -y) : atan2(z, y));
     }
 
     // Rotate one set of RA/Dec positions around the vernal equinox by an angle 'e' given in
@@ -199,7 +195,7 @@ namespace astro {
         auto y2 = ce*y1 - se*z1;
         auto z2 = ce*z1 + se*y1;
 
-        d2 = asin(z2);
+        d2 = atan2(z2, sqrt(x1*x1 + y2*y2));
         r2 = atan2(y2, x1);
 
         // Other solutions
-- 
2.43.0


From cacb0112b781bb1d866a4679ae0e58cffd955f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:43 +0000
Subject: [PATCH 156/167] fix: file::remove() reported success without removing
 links to missing files and files it cannot reach

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 215f09b..c05a5b0 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -6,6 +6,7 @@
 #include <fnmatch.h>
 #include <cstring>
 #include <cstdio>
+#include <cerrno>
 #include <sys/stat.h>
 #include <fstream>
 #include <sstream>
@@ -72,7 +73,7 @@ namespace file {
     }
 
     inline bool remove(const std::string& path) {
-        return !file::exists(path) || ::remove(path.c_str()) == 0;
+        return ::remove(path.c_str()) == 0 || errno == ENOENT || errno == ENOTDIR;
     }
 
     inline bool move(const std::string& from, const std::string& to) {
-- 
2.43.0


From 83d3ad5916ca45aa8a115079b5f88871af332343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:28 +0000
Subject: [PATCH 157/167] fix: interpolation of integer tables wrapped
 differences of unsigned values and rounded ratios

---
 include/vif/math/interpolate.hpp | 39 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 66fd2c2..6422b8a 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -18,6 +18,13 @@ namespace vif {
         return std::make_pair(y1 + (y2 - y1)*a, sqrt(sqr(e1*(1-a)) + sqr(e2*a)));
     }
 
+    namespace impl {
+        // Type used to do computations with a value (differences of integers may overflow or wrap,
+        // and their ratios are rounded)
+        template<typename T>
+        using interpolate_type_t = typename std::conditional<std::is_integral<T>::value, double, T>::type;
+    }
+
     // Perform linear interpolation of data 'y' of position 'x' at new positions 'nx'.
     // Assumes that the arrays only contain finite elements, and that 'x' is properly sorted. If one of
     // the arrays contains special values (NaN, inf, ...), all the points that would use these values
@@ -27,8 +34,8 @@ namespace vif {
     auto interpolate(const vec<DI,TypeY>& y, const vec<DI,TypeX1>& x, const vec<DX,TypeX2>& nx) ->
         vec<DX,decltype(y[0]*x[0])> {
 
-        using rtypey = meta::rtype_t<TypeY>;
-        using rtypex = meta::rtype_t<TypeX1>;
+        using rtypey = impl::interpolate_type_t<meta::rtype_t<TypeY>>;
+        using rtypex = impl::interpolate_type_t<meta::rtype_t<TypeX1>>;
 
         vif_check(y.size() == x.size(),
             "interpolate: 'x' and 'y' arrays must contain the same number of elements");
@@ -72,8 +79,8 @@ namespace vif {
     auto interpolate(const vec<DI,TypeY>& y, const vec<DI,TypeX>& x, const T& nx) ->
         decltype(y[0]*x[0]) {
 
-        using rtypey = meta::rtype_t<TypeY>;
-        using rtypex = meta::rtype_t<TypeX>;
+        using rtypey = impl::interpolate_type_t<meta::rtype_t<TypeY>>;
+        using rtypex = impl::interpolate_type_t<meta::rtype_t<TypeX>>;
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
@@ -110,9 +117,9 @@ namespace vif {
         const vec<DX,TypeX2>& nx) ->
         std::pair<vec<DX,decltype(y[0]*x[0])>,vec<DX,decltype(y[0]*x[0])>> {
 
-        using rtypey = meta::rtype_t<TypeY>;
-        using rtypee = meta::rtype_t<TypeE>;
-        using rtypex = meta::rtype_t<TypeX1>;
+        using rtypey = impl::interpolate_type_t<meta::rtype_t<TypeY>>;
+        using rtypee = impl::interpolate_type_t<meta::rtype_t<TypeE>>;
+        using rtypex = impl::interpolate_type_t<meta::rtype_t<TypeX1>>;
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
@@ -289,8 +296,8 @@ namespace vif {
 
             vec1d al(n);
             for (uint_t i : range(1, n)) {
-                al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
+                al.safe[i] = 3.0*(double(y.safe[i+1]) - y.safe[i])/h.safe[i]
+                           - 3.0*(double(y.safe[i]) - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
@@ -306,7 +313,7 @@ namespace vif {
                 do {
                     --i;
                     c.safe[i] = z.safe[i] - mu.safe[i]*c.safe[i+1];
-                    b.safe[i] = (y.safe[i+1]-y.safe[i])/h.safe[i]
+                    b.safe[i] = (double(y.safe[i+1])-y.safe[i])/h.safe[i]
                               - (1.0/3.0)*h.safe[i]*(c.safe[i+1] + 2*c.safe[i]);
                     d.safe[i] = (1.0/3.0)*(c.safe[i+1] - c.safe[i])/h.safe[i];
                 } while (i != 0);
@@ -326,7 +333,7 @@ namespace vif {
 
             vec1d al(n);
             for (uint_t i : range(1, n)) {
-                al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i]) - 3.0*(y.safe[i] - y.safe[i-1]);
+                al.safe[i] = 3.0*(double(y.safe[i+1]) - y.safe[i]) - 3.0*(double(y.safe[i]) - y.safe[i-1]);
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
@@ -342,7 +349,7 @@ namespace vif {
                 do {
                     --i;
                     c.safe[i] = z.safe[i] - mu.safe[i]*c.safe[i+1];
-                    b.safe[i] = (y.safe[i+1]-y.safe[i]) - (1.0/3.0)*(c.safe[i+1] + 2*c.safe[i]);
+                    b.safe[i] = (double(y.safe[i+1])-y.safe[i]) - (1.0/3.0)*(c.safe[i+1] + 2*c.safe[i]);
                     d.safe[i] = (1.0/3.0)*(c.safe[i+1] - c.safe[i]);
                 } while (i != 0);
             }
@@ -373,10 +380,10 @@ namespace vif {
         for (uint_t i : range(xn)) {
             uint_t k = lower_bound(x, xn.safe[i]);
             if (k == npos) {
-                double th = xn[i] - x[0];
+                double th = double(xn[i]) - x[0];
                 yn[i] = y[0] + b[0]*th;
             } else {
-                double th = xn[i] - x[k];
+                double th = double(xn[i]) - x[k];
                 yn[i] = y[k] + b[k]*th + c[k]*th*th + d[k]*th*th*th;
             }
         }
@@ -404,10 +411,10 @@ namespace vif {
 
         uint_t k = lower_bound(x, xn);
         if (k == npos) {
-            double th = xn - x[0];
+            double th = double(xn) - x[0];
             return y[0] + b[0]*th;
         } else {
-            double th = xn - x[k];
+            double th = double(xn) - x[k];
             return y[k] + b[k]*th + c[k]*th*th + d[k]*th*th*th;
         }
     }
-- 
2.43.0


From 1811b883455cd8eb949b60cfec26def38cb92e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:33 +0000
Subject: [PATCH 158/167] fix: rms, stddev, weighted_mean and optimal_mean of
 large integers overflowed

---
 include/vif/math/reduce.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index ea01987..f4cd754 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -62,7 +62,7 @@ namespace vif {
         double total = 0.0;
         double totalw = 0.0;
         for (uint_t i : range(v)) {
-            total += v.safe[i]*w.safe[i];
+            total += double(v.safe[i])*w.safe[i];
             totalw += w.safe[i];
         }
 
@@ -79,7 +79,7 @@ namespace vif {
         double totalv = 0.0;
         double totalw = 0.0;
         for (uint_t i : range(v)) {
-            double w = 1.0/(e.safe[i]*e.safe[i]);
+            double w = 1.0/(double(e.safe[i])*e.safe[i]);
             totalv += w*v.safe[i];
             totalw += w;
         }
@@ -459,7 +459,7 @@ namespace vif {
     double rms(const vec<Dim,Type>& v) {
         double sum = 0;
         for (auto& t : v) {
-            sum += t*t;
+            sum += double(t)*t;
         }
 
         return sqrt(sum/v.size());
-- 
2.43.0


From 9359e55e37d014a924427dffefe988f918d19f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:07 +0000
Subject: [PATCH 159/167] fix: weighted_percentile could return NaN for
 percentiles close to 1 because of rounding

---
 include/vif/math/reduce.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index f4cd754..819bc89 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -185,6 +185,7 @@ namespace vif {
         vec1u ids = sort(v);
 
         double tot = 0;
+        uint_t last = npos;
         for (uint_t i : range(ids)) {
             uint_t j = ids.safe[i];
             if (!is_nan(v.safe[j]) && !is_nan(w.safe[j])) {
@@ -192,9 +193,16 @@ namespace vif {
                 if (tot >= totw*p) {
                     return v.safe[j];
                 }
+
+                if (w.safe[j] != 0) last = j;
             }
         }
 
+        // Can happen because of rounding errors, if the percentile is close to 1
+        if (last != npos && p <= 1) {
+            return v.safe[last];
+        }
+
         return dnan;
     }
 
-- 
2.43.0


From 6c3fb1a123e37536c9a74c21e2860de8b13ea78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:16 +0000
Subject: [PATCH 160/167] fix: progress_tick crashed at the end of short loops,
 and the progress functions crashed without iterations

---
 include/vif/utility/time.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/vif/utility/time.hpp b/include/vif/utility/time.hpp
index f4993d5..f55b7ae 100644
--- a/include/vif/utility/time.hpp
+++ b/include/vif/utility/time.hpp
@@ -148,7 +148,7 @@ namespace vif {
     // Updates a progress bar for an iterative process ('p' is created from 'progress_start')
     template<typename M = uint_t>
     void progress(progress_t& p, const M& mod = 1) {
-        if (p.ended) return;
+        if (p.ended || p.n == 0) return;
 
         if (p.i % mod == 0 || p.i == p.n-1) {
             impl::progress_(p);
@@ -165,9 +165,9 @@ namespace vif {
     // Updates a progress bar for an iterative process ('p' is created from 'progress_start')
     template<typename M = uint_t>
     void progress_tick(progress_t& p, double ticklen) {
-        if (p.ended) return;
+        if (p.ended || p.n == 0) return;
 
-        if (p.i < 10 || p.i - p.last_tick >= p.ips*ticklen) {
+        if (p.i < 10 || p.i >= p.n-1 || p.i - p.last_tick >= p.ips*ticklen) {
             p.last_tick = p.i;
             impl::progress_(p);
         }
@@ -175,7 +175,6 @@ namespace vif {
         ++p.i;
 
         if (p.i >= p.n) {
-            impl::progress_(p);
             std::cout << std::endl;
             p.ended = true;
         }
-- 
2.43.0


From 28ffe727f51b24086da42de6b855bf6fc4d4eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:17 +0000
Subject: [PATCH 161/167] fix: prompt() looped forever at the end of the input,
 and accepted negative numbers for unsigned values

---
 include/vif/core/print.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/print.hpp b/include/vif/core/print.hpp
index 56e2366..f23c497 100644
--- a/include/vif/core/print.hpp
+++ b/include/vif/core/print.hpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <sstream>
 #include <utility>
+#include <type_traits>
 
 namespace vif {
     template<typename T>
@@ -40,12 +41,19 @@ namespace vif {
         do {
             std::cout << msg;
             std::string answer;
-            std::getline(std::cin, answer);
+            if (!std::getline(std::cin, answer)) {
+                // Nothing more to read
+                return false;
+            }
 
-            std::istringstream ss(std::move(answer));
+            std::istringstream ss(answer);
             ss >> value;
 
-            if (!ss.fail()) {
+            // The standard streams silently wrap negative numbers into large unsigned values
+            bool wrapped = std::is_unsigned<T>::value && sizeof(T) > 1 &&
+                answer.find('-') != answer.npos;
+
+            if (!ss.fail() && !wrapped) {
                 if (ss.eof()) {
                     ok = true;
                 } else {
-- 
2.43.0


From e2f1c15d62e2dea8cf556f455488bdbbd6fe7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:23 +0000
Subject: [PATCH 162/167] fix: randpos_power_circle ignored max_iter when
 placing positions, and never ended with zero levels

---
 include/vif/astro/astro.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index f015baf..95a5a83 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -924,10 +924,13 @@ namespace astro {
         auto genpos = [&in_region, &seed, &options](double x1, double y1, double r1,
             uint_t num, double threshold, vec1d& tx, vec1d& ty) mutable {
 
+            randpos_uniform_options uoptions;
+            uoptions.max_iter = options.max_iter;
+
             return randpos_uniform_circle(seed, num, x1, y1, r1, tx, ty,
                 [&](double nx, double ny) {
                     return in_region(nx, ny, threshold);
-                }
+                }, uoptions
             );
         };
 
@@ -946,7 +949,7 @@ namespace astro {
         }
 
         double r1 = r0;
-        for (uint_t l : range(options.levels-1)) {
+        for (uint_t l = 0; l+1 < options.levels; ++l) {
             // For each position, generate new objects within a "cell" of radius 'r1'
             r1 /= options.lambda;
             rth = (l+2 == options.levels ? 0.0 : 0.8*r1/options.lambda);
-- 
2.43.0


From 79a3e7e48020972a05cc8352a1ac3f411ceefe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:17 +0000
Subject: [PATCH 163/167] fix: bilinear_strict (hence translate, rotate and
 scale) lost the last row and column of the map

---
 include/vif/math/interpolate.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 6422b8a..082d635 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -241,20 +241,23 @@ namespace vif {
     meta::rtype_t<Type> bilinear_strict(const vec<2,Type>& map, double x, double y,
         TypeD def = 0.0) {
 
-        int_t tix = floor(x);
-        int_t tiy = floor(y);
-
-        if (tix < 0 || uint_t(tix)+1 >= map.dims[0] || tiy < 0 || uint_t(tiy)+1 >= map.dims[1]) {
+        if (map.empty() || !(x >= 0 && x <= map.dims[0]-1 && y >= 0 && y <= map.dims[1]-1)) {
             return def;
         }
 
+        int_t tix = floor(x);
+        int_t tiy = floor(y);
         double dx = x - tix;
         double dy = y - tiy;
         uint_t ix = tix;
         uint_t iy = tiy;
 
-        return bilinear(map.safe(ix,iy), map.safe(ix,iy+1),
-                        map.safe(ix+1,iy), map.safe(ix+1,iy+1), dx, dy);
+        // Exactly on the last row or column, there is no next pixel (and it has no weight)
+        uint_t nx = (ix+1 < map.dims[0] ? ix+1 : ix);
+        uint_t ny = (iy+1 < map.dims[1] ? iy+1 : iy);
+
+        return bilinear(map.safe(ix,iy), map.safe(ix,ny),
+                        map.safe(nx,iy), map.safe(nx,ny), dx, dy);
     }
 
     template<typename Type>
-- 
2.43.0


From e42b88bbd57811b7b670a199b9eecd76ba4f2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:57 +0000
Subject: [PATCH 164/167] fix: FITS table columns of several elements were read
 into scalars, dropping all but the first (rows, or flatten)

---
 include/vif/io/fits/table.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 9542e3e..128c9a5 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -554,25 +554,25 @@ namespace fits {
         template<std::size_t Dim, typename T, typename enable =
             typename std::enable_if<!std::is_same<T,std::string>::value>::type>
         bool read_column_check_dim_(const table_read_options& opts, vec<Dim,T>&, uint_t vdim,
-            long naxis, long repeat) const {
+            long naxis, long nelem) const {
 
             return read_column_check_dim_impl_(opts, naxis, vdim);
         }
 
         template<typename T>
         bool read_column_check_dim_(const table_read_options& opts, T&, uint_t vdim,
-            long naxis, long repeat) const {
+            long naxis, long nelem) const {
 
-            // Early exit to refuse loading 1D vectors into scalars if the number of
-            // element is greater than one
-            if (naxis == 1 && repeat > 1) return false;
+            // Early exit to refuse loading vectors into scalars if the number of
+            // element is not one
+            if (nelem != 1) return false;
 
             return read_column_check_dim_impl_(opts, naxis, vdim);
         }
 
         template<std::size_t Dim>
         bool read_column_check_dim_(const table_read_options& opts, vec<Dim,std::string>&,
-            uint_t vdim, long naxis, long repeat) const {
+            uint_t vdim, long naxis, long nelem) const {
 
             // Early exit to allow loading 1D byte into vec1s
             if (Dim == 1 && naxis == 1) return true;
@@ -581,7 +581,9 @@ namespace fits {
         }
 
         bool read_column_check_dim_(const table_read_options& opts, std::string&, uint_t vdim,
-            long naxis, long repeat) const {
+            long naxis, long nelem) const {
+
+            if (nelem != 1) return false;
 
             return read_column_check_dim_impl_(opts, naxis, vdim);
         }
@@ -661,7 +663,13 @@ namespace fits {
                 }
             }
 
-            if (!read_column_check_dim_(opts, value, vdim, naxis, repeat)) {
+            // Number of elements (for strings, the first axis is the length of the string)
+            long nelem = 1;
+            for (int i = (std::is_same<vtype,std::string>::value ? 1 : 0); i < naxis; ++i) {
+                nelem *= axes[i];
+            }
+
+            if (!read_column_check_dim_(opts, value, vdim, naxis, nelem)) {
                 return read_sentry{this, "wrong number of dimensions for column '"+colname+"' "
                     "(expected "+to_string(vdim)+", got "+to_string(naxis)+")"};
             }
-- 
2.43.0


From 43a3b3a87b1192baa32c8c648ac04965dc0327c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:51 +0000
Subject: [PATCH 165/167] fix: read_elements and update_elements of FITS tables
 accepted values with other dimensions than those accessed

---
 include/vif/io/fits/table.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/vif/io/fits/table.hpp b/include/vif/io/fits/table.hpp
index 128c9a5..e38ed26 100644
--- a/include/vif/io/fits/table.hpp
+++ b/include/vif/io/fits/table.hpp
@@ -981,6 +981,11 @@ namespace fits {
                 "compared to what is present in the file (", naccessed, " vs. ",
                 ci.dims.size(), ")");
 
+            const uint_t nrange = impl::vec_access::result_dim<Args...>::value;
+            const uint_t nvalue = meta::vec_dim<Type>::value;
+            vif_check(nvalue == nrange, "wrong number of dimensions to read elements from column '",
+                tcolname, "' (expected ", nrange, ", got ", nvalue, ")");
+
             using vtype = typename impl::fits_impl::data_type<Type>::type;
             using traits = impl::fits_impl::traits<vtype>;
             bool convertible = false;
@@ -1730,6 +1735,11 @@ namespace fits {
             vif_check(naccessed == ci.dims.size(), "wrong number of dimensions for column '",
                 tcolname, "' (expected ", naccessed, ", got ", ci.dims.size(), ")");
 
+            const uint_t nrange = impl::vec_access::result_dim<Args...>::value;
+            const uint_t nvalue = meta::vec_dim<Type>::value;
+            vif_check(nvalue == nrange, "wrong number of dimensions to update elements of column '",
+                tcolname, "' (expected ", nrange, ", got ", nvalue, ")");
+
             update_elements_check_dims_(tcolname, value, ci.dims);
 
             using vtype = typename impl::fits_impl::data_type<Type>::type;
-- 
2.43.0


From 2406019c22f2422714abb9c871dc4cae44f18e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:51 +0000
Subject: [PATCH 166/167] fix: same_size, same_dims_or_scalar (hence linfit and
 mpfitfun) accepted vectors with different dimensions

---
 include/vif/core/bits/helpers.hpp | 79 +++++++++++++++++--------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/include/vif/core/bits/helpers.hpp b/include/vif/core/bits/helpers.hpp
index 1b65b01..9dbd612 100644
--- a/include/vif/core/bits/helpers.hpp
+++ b/include/vif/core/bits/helpers.hpp
@@ -303,57 +303,64 @@ namespace meta {
     // Check if all arguments have same size
     template<typename T, typename U, typename ... Args>
     bool same_size(const T& v1, const U& v2) {
-        return size(v1) && size(v2);
+        return size(v1) == size(v2);
     }
 
     template<typename T, typename U, typename ... Args>
     bool same_size(const T& v1, const U& v2, const Args& ... args) {
-        return size(v1) && size(v2) && same_size(v1, args...);
+        return size(v1) == size(v2) && same_size(v1, args...);
     }
 }
 
 namespace impl {
     namespace meta_impl {
-        inline bool same_dims_or_scalar_(uint_t size) {
-            return true;
-        }
-
-        template<std::size_t Dim, typename T, typename ... Args>
-        bool same_dims_or_scalar_(uint_t size, const vec<Dim,T>& v1, const Args& ... args);
-
-        template<typename T, typename ... Args,
-            typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
-        bool same_dims_or_scalar_(uint_t size, const T& v1, const Args& ... args) {
-            return same_dims_or_scalar_(size, args...);
-        }
-
-        template<std::size_t Dim, typename T, typename ... Args>
-        bool same_dims_or_scalar_(uint_t size, const vec<Dim,T>& v1, const Args& ... args) {
-            return v1.size() == size && same_dims_or_scalar_(size, args...);
-        }
-
-        inline uint_t same_dims_or_scalar_get_size_() {
-            return 0u;
-        }
-
-        template<std::size_t Dim, typename T, typename ... Args>
-        uint_t same_dims_or_scalar_get_size_(const vec<Dim,T>& v1, const Args& ... args) {
-            return v1.size();
-        }
-
-        template<typename T, typename ... Args,
-            typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
-        uint_t same_dims_or_scalar_get_size_(const T& v1, const Args& ... args) {
-            return same_dims_or_scalar_get_size_(args...);
-        }
+        struct same_dims_or_scalar_ {
+            // Look for the first vector
+            static bool check() {
+                return true;
+            }
+
+            template<std::size_t Dim, typename T, typename ... Args>
+            static bool check(const vec<Dim,T>& v1, const Args& ... args) {
+                return check_dims(v1.dims, args...);
+            }
+
+            template<typename T, typename ... Args,
+                typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
+            static bool check(const T& v1, const Args& ... args) {
+                return check(args...);
+            }
+
+            // Compare the dimensions of the other vectors
+            template<std::size_t D>
+            static bool check_dims(const std::array<uint_t,D>& dims) {
+                return true;
+            }
+
+            template<std::size_t D, typename T, typename ... Args>
+            static bool check_dims(const std::array<uint_t,D>& dims, const vec<D,T>& v1, const Args& ... args) {
+                return v1.dims == dims && check_dims(dims, args...);
+            }
+
+            template<std::size_t D, std::size_t Dim, typename T, typename ... Args,
+                typename enable = typename std::enable_if<D != Dim>::type>
+            static bool check_dims(const std::array<uint_t,D>& dims, const vec<Dim,T>& v1, const Args& ... args) {
+                return false;
+            }
+
+            template<std::size_t D, typename T, typename ... Args,
+                typename enable = typename std::enable_if<!meta::is_vec<T>::value>::type>
+            static bool check_dims(const std::array<uint_t,D>& dims, const T& v1, const Args& ... args) {
+                return check_dims(dims, args...);
+            }
+        };
     }
 }
 
 namespace meta {
     template<typename ... Args>
     bool same_dims_or_scalar(const Args& ... args) {
-        uint_t size = impl::meta_impl::same_dims_or_scalar_get_size_(args...);
-        return size == 0 || impl::meta_impl::same_dims_or_scalar_(size, args...);
+        return impl::meta_impl::same_dims_or_scalar_::check(args...);
     }
 
     // Trait to identify output types: vec<D,T>& or vec<D,T*>
-- 
2.43.0


From a39902644449bf7e48aea4157e6be9d6a89ce1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 167/167] fix: translate_bicubic ignored the default value and
 truncated intermediate values of integer maps

---
 include/vif/astro/image.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 96d8f7b..c8fcaee 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -142,15 +142,27 @@ namespace astro {
     typename vec<2,TypeV>::effective_type translate_bicubic(const vec<2,TypeV>& v, double dx, double dy,
         typename vec<2,TypeV>::rtype def = 0.0) {
 
-        vec<2,meta::rtype_t<TypeV>> trs = v;
-        vec1d t = indgen<double>(v.dims[1]) - dy;
+        vec2d tmp = v;
+        vec1d ty = indgen<double>(v.dims[1]) - dy;
         for (uint_t x : range(v.dims[0])) {
-            trs.safe(x,_) = interpolate_3spline(trs.safe(x,_), t);
+            tmp.safe(x,_) = interpolate_3spline(tmp.safe(x,_), ty);
         }
 
-        t = indgen<double>(v.dims[0]) - dx;
+        vec1d tx = indgen<double>(v.dims[0]) - dx;
         for (uint_t y : range(v.dims[1])) {
-            trs.safe(_,y) = interpolate_3spline(trs.safe(_,y), t);
+            tmp.safe(_,y) = interpolate_3spline(tmp.safe(_,y), tx);
+        }
+
+        // Like translate(), use the default value outside of the map
+        vec<2,meta::rtype_t<TypeV>> trs(v.dims);
+        for (uint_t x : range(v.dims[0]))
+        for (uint_t y : range(v.dims[1])) {
+            if (tx.safe[x] < 0 || tx.safe[x] > v.dims[0]-1 ||
+                ty.safe[y] < 0 || ty.safe[y] > v.dims[1]-1) {
+                trs.safe(x,y) = def;
+            } else {
+                trs.safe(x,y) = tmp.safe(x,y);
+            }
         }
 
         return trs;
-- 
2.43.0

