From 51875b228b1e3cfcbe3b9f338e7aafe57d73da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 01/24] fix: keep every point's grid cell inside the grid

A coordinate just below 1 can round up to the grid resolution when divided
by the cell length; its cell id then indexes past the offset table.
---
 src/xyzset.ipp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/xyzset.ipp b/src/xyzset.ipp
index 9bf22a4..87b7471 100644
--- a/src/xyzset.ipp
+++ b/src/xyzset.ipp
@@ -13,6 +13,14 @@ inline T2 get_distance(
   return square(p0 - q0) + square(p1 - q1) + square(p2 - q2);
 }
 
+// cell coordinate along one axis, always within [0, gr): the division may
+// round up to gr for a coordinate just below 1.
+template <typename T1, typename T2>
+inline T1 get_cell(const T2 x, const T2 gl, const T1 gr) {
+  const T1 cell = static_cast<T1>(std::floor(x / gl));
+  return std::max(static_cast<T1>(0), std::min(cell, static_cast<T1>(gr - 1)));
+}
+
 template <typename T1, typename T2>
 const std::pair<std::vector<T1>, std::vector<T1>>
 sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
@@ -26,9 +34,9 @@ sort(std::vector<std::array<T2,3>>& xyzset, const args::xyzset& args) {
   
   // init
   for (size_t i = 0; i < xyzset.size(); i++) {
-    id[i] = static_cast<T1>(std::floor(xyzset[i][0] / gl))
-          + static_cast<T1>(std::floor(xyzset[i][1] / gl)) * gr  
-          + static_cast<T1>(std::floor(xyzset[i][2] / gl)) * gr * gr; 
+    id[i] = get_cell<T1>(xyzset[i][0], gl, gr)
+          + get_cell<T1>(xyzset[i][1], gl, gr) * gr  
+          + get_cell<T1>(xyzset[i][2], gl, gr) * gr * gr; 
   };
   
   // sort
@@ -108,9 +116,9 @@ bool validate_sort(
 ) {
   T2 gl = 1.0f / gr;
   for (size_t i = 0; i < xyzset.size(); ++i) {
-    T1 cid = static_cast<T1>(std::floor(xyzset[i][0] / gl)) +
-             static_cast<T1>(std::floor(xyzset[i][1] / gl) * gr) +
-             static_cast<T1>(std::floor(xyzset[i][2] / gl) * gr * gr);
+    T1 cid = get_cell<T1>(xyzset[i][0], gl, gr) +
+             get_cell<T1>(xyzset[i][1], gl, gr) * gr +
+             get_cell<T1>(xyzset[i][2], gl, gr) * gr * gr;
     if (cid != id[i]) {
       return false;
     }
-- 
2.43.0


From 30faef27c4df891256eef33e0e645087875b619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 02/24] fix: support cc_p_maxsize of 256 and more

The 8-bit counters of the duplicate-edge scan wrapped around, and plane ids
collided with the 'undefined' marker, so every cell failed.
---
 src/boundary.ipp | 8 ++++----
 src/cc.ipp       | 9 ++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 03432ba..61d36e1 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -193,10 +193,10 @@ inline boundary::bstatus boundary::compute(
     }
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
@@ -331,11 +331,11 @@ inline boundary::bstatus boundary::compute(
   
   
     bool flag = false;
-    for (uint8_t edge_i = 0; edge_i < dr_size; edge_i++) {
+    for (Ti edge_i = 0; edge_i < dr_size; edge_i++) {
       if (cycle[dr_offs + edge_i] == boundary::bstatus::undefined) continue;
 
 
-      for (uint8_t edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
+      for (Ti edge_j = edge_i + 1; edge_j < dr_size; edge_j++) {
         if (cycle[dr_offs + edge_j] == boundary::bstatus::undefined) continue;
 
         const bool cond = cycle[dr_offs + edge_i] == cycle[dr_offs + edge_j];
diff --git a/src/cc.ipp b/src/cc.ipp
index ad3da13..6295823 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -135,7 +135,8 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      // plane ids are stored as Tu, and 'undefined' is not a plane id
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -358,7 +359,8 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      // plane ids are stored as Tu, and 'undefined' is not a plane id
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
@@ -585,7 +587,8 @@ void cci::compute(
     
     if (r_size > 0) {
 
-      if (p_size >= p_maxsize) {
+      // plane ids are stored as Tu, and 'undefined' is not a plane id
+      if (p_size >= p_maxsize || p_size >= boundary::bstatus::undefined) {
         state.set_true(cc::error_p_overflow);
         return;
       }
-- 
2.43.0


From 0b142abb31c4d08f54790de46975a9403b6d75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 03/24] fix: report overflow when the initial cell does not fit
 the workspace

With cc_p_maxsize < 6 or cc_t_maxsize < 8 the initial cube was written past
the end of the cell's slice of P and T.
---
 src/cc.ipp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/cc.ipp b/src/cc.ipp
index 6295823..9a1a706 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -41,6 +41,15 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  if (p_maxsize < p_initsize) {
+    state.set_true(cc::error_p_overflow);
+    return;
+  }
+  if (t_maxsize < t_initsize) {
+    state.set_true(cc::error_t_overflow);
+    return;
+  }
+
   Tf vertex[4];
   Tf bisector[4];
 
@@ -265,6 +274,15 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  if (p_maxsize < p_initsize) {
+    state.set_true(cc::error_p_overflow);
+    return;
+  }
+  if (t_maxsize < t_initsize) {
+    state.set_true(cc::error_t_overflow);
+    return;
+  }
+
   Tf vertex[4];
   Tf bisector[4];
 
@@ -493,6 +511,15 @@ void cci::compute(
 
   cc::state& state = states[index];
 
+  if (p_maxsize < p_initsize) {
+    state.set_true(cc::error_p_overflow);
+    return;
+  }
+  if (t_maxsize < t_initsize) {
+    state.set_true(cc::error_t_overflow);
+    return;
+  }
+
   Tf vertex[4];
   Tf bisector[4];
 
-- 
2.43.0


From 4c03e4117788d1f6528ceb215ac943142ac955b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 04/24] fix: do not truncate k to 16 bits in the convex cell
 algorithm

The neighbour lists are laid out with the full k (recompute doubles it up to
the number of points), so a truncated stride reads other cells' neighbours.
---
 src/cc.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 9a1a706..e754abd 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -31,7 +31,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const Ti k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -264,7 +264,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const Ti k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
@@ -501,7 +501,7 @@ void cci::compute(
   const unsigned short int p_initsize = sizeof(p_init) / (sizeof(*p_init) * 4);
   const unsigned short int t_initsize = sizeof(t_init) / (sizeof(*t_init) * 3);
 
-  const unsigned short int k = args.k;
+  const Ti k = args.k;
   const unsigned short int p_maxsize = args.p_maxsize;
   const unsigned short int t_maxsize = args.t_maxsize;
 
-- 
2.43.0


From d99f9b83a5d64e8eb8af52d0116ae54af651f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 05/24] fix: use index-typed counters in the SYCL boundary, as
 in the CPU one

With 8-bit counters the bound of the walk is never exceeded for 255 or more
removed vertices, so a corrupt cycle is walked forever.
---
 src/boundary.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/boundary.ipp b/src/boundary.ipp
index 61d36e1..4f3f98f 100644
--- a/src/boundary.ipp
+++ b/src/boundary.ipp
@@ -251,7 +251,7 @@ inline boundary::bstatus boundary::compute(
     cycle[dr_offs + head] = triangle_edge_1;
   }
   
-  Tu swap_j = r_size;
+  Ti swap_j = r_size;
   for (Ti j = 1; j < r_size; j++) {
   
     struct vstatus stat;
@@ -264,7 +264,7 @@ inline boundary::bstatus boundary::compute(
   
       uint8_t edge = cycle[dr_offs + first];
   
-      Tu counter = 0;
+      Ti counter = 0;
       while (true) {
         head = edge;
   
-- 
2.43.0


From 0363e9950e78b5bc4fe600eda804982a946096f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 06/24] fix: make the const subscript of dnn usable

It did not compile when instantiated.
---
 src/dnn.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 5121dc0..47d7202 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -65,7 +65,9 @@ votess::dnn<Ti>::dnn(std::vector<Ti>&& _list, std::vector<Ti>&& _offs)
 template<typename Ti>
 const typename votess::dnn<Ti>::proxy 
 votess::dnn<Ti>::operator[](const int i) const {
-  return proxy(list, offs, i);
+  // the returned proxy is const and only hands out const references
+  return proxy(const_cast<std::vector<Ti>&>(list),
+               const_cast<std::vector<Ti>&>(offs), i);
 }
 
 template<typename Ti>
@@ -138,6 +140,7 @@ class votess::dnn<T>::proxy {
   public:
     proxy(std::vector<T>& list, std::vector<T>& offs, const size_t index);
     T& operator[](const size_t i);
+    const T& operator[](const size_t i) const;
     size_t size() const;
   private:
     std::vector<T>& _list;
@@ -156,6 +159,11 @@ T& votess::dnn<T>::proxy::operator[](const size_t i) {
   return _list[_offs[_index] + i];
 }
 
+template<typename T>
+const T& votess::dnn<T>::proxy::operator[](const size_t i) const {
+  return _list[_offs[_index] + i];
+}
+
 template<typename T>
 size_t votess::dnn<T>::proxy::size() const {
   if (_index == _offs.size() - 1) return _list.size() - _offs[_index];
-- 
2.43.0


From be9980d5356201e9bff7d269051993fc27ac56d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 07/24] fix: a default-constructed dnn has size 0

---
 src/dnn.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 47d7202..b05093f 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -78,7 +78,7 @@ votess::dnn<Ti>::operator[](const int i) {
 
 template<typename Ti>
 size_t votess::dnn<Ti>::size() const {
-  return offs.size() - 1;
+  return offs.empty() ? 0 : offs.size() - 1;
 }
 
 template <typename Ti>
-- 
2.43.0


From 6b00bbdad4392202c2ae3ecd2a5307bc733ea231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 08/24] fix: print and save one row per point, empty rows
 included

An empty row was skipped, so every later row moved to another point's line.
---
 src/dnn.ipp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index b05093f..44c4db6 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -89,19 +89,14 @@ void votess::dnn<Ti>::print() const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
   std::cout<<"{\n  {";
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
+  for (size_t row = 0; row < this->size(); row++) {
+    if (row > 0) {
       std::cout << "}\n  {";
     }
-
-    std::cout<<std::setw(1)<<i<<", ";
-    index += 1;
+    for (Ti i = this->offs[row]; i < this->offs[row + 1]; i++) {
+      std::cout<<std::setw(1)<<this->list[i]<<", ";
+    }
   }
   std::cout << "}\n}" << std::endl;
 
@@ -115,19 +110,12 @@ void votess::dnn<Ti>::savetxt(const std::string& fname) const {
     return;
   }
 
-  Ti index = 0;
-  size_t counter = 1;
-  for (auto i : this->list) {
-    if (index == this->offs[counter]) {
-      if (counter < this->offs.size() - 1) {
-        counter += 1;
-      }
-      fp<<"\n";
+  for (size_t row = 0; row < this->size(); row++) {
+    for (Ti i = this->offs[row]; i < this->offs[row + 1]; i++) {
+      fp<<std::setw(1)<<this->list[i]<<" ";
     }
-    fp<<std::setw(1)<<i<<" ";
-    index += 1;
+    fp<<"\n";
   }
-  fp<<"\n";
   fp.close();
 }
 
-- 
2.43.0


From a0b1229628fd526f3ec67ae2a7509d07124e6603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 09/24] fix: reject a parameter value that converts only in
 part

A value such as 1e6, stored as "1e+06", was read back as the integer 1.
---
 include/arguments.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arguments.hpp b/include/arguments.hpp
index a4e86fd..592973e 100644
--- a/include/arguments.hpp
+++ b/include/arguments.hpp
@@ -89,7 +89,7 @@ class vtargref {
       std::istringstream iss(s); 
       T v;
       iss >> v;
-      if (iss.fail()) {
+      if (iss.fail() || !(iss.eof() || (iss >> std::ws).eof())) {
         throw std::invalid_argument("Invalid type conversion");
       }
       return v;
-- 
2.43.0


From dac5628fb4ca48d9ce85405197971abf2882f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 10/24] fix: run on one thread when the hardware thread count
 is unknown

hardware_concurrency() may return 0, which was then used as a divisor.
---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index e5ccd99..c565823 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -382,7 +382,7 @@ __cpu__tesellate(
 
   const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
                           args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+                          std::max(std::thread::hardware_concurrency(), 1u);
 
   const int chunksize = args["use_chunking"].get<bool>() ? 
                         args["chunksize"] : refsize + 1;
@@ -506,7 +506,7 @@ __cpu__recompute(
 
   const size_t nthreads = args["cpu_nthreads"].get<size_t>() != 0 ?
                           args["cpu_nthreads"] : 
-                          std::thread::hardware_concurrency(); 
+                          std::max(std::thread::hardware_concurrency(), 1u);
 
   Ti subsize = 0;
   for (auto& s : states) {
-- 
2.43.0


From a99dec731ef368956a80d6addce489aa311aa65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 11/24] fix: do not take unused neighbour slots for point 0

With k larger than the number of other points the unused slots held id 0,
so point 0 was listed several times, or a point became its own neighbour.
---
 src/cc.ipp     | 3 +++
 src/votess.ipp | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index e754abd..1b84413 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -73,6 +73,7 @@ void cci::compute(
   for (Ti neighbor = 0; neighbor < k; neighbor++) {
   
     auto& q = knn[k * i + neighbor];
+    if (q == cc::k_undefined) break; // fewer than k other points
     const Tf qx = xyzset[q][0];
     const Tf qy = xyzset[q][1];
     const Tf qz = xyzset[q][2];
@@ -306,6 +307,7 @@ void cci::compute(
   for (Ti neighbor = 0; neighbor < k; neighbor++) {
   
     auto& q = knn[k * i + neighbor];
+    if (q == cc::k_undefined) break; // fewer than k other points
     const Tf qx = xyzset[xyzsize * 0 + q];
     const Tf qy = xyzset[xyzsize * 1 + q];
     const Tf qz = xyzset[xyzsize * 2 + q];
@@ -543,6 +545,7 @@ void cci::compute(
   for (Ti neighbor = 0; neighbor < k; neighbor++) {
   
     auto& q = knn[koffs * neighbor + i];
+    if (q == cc::k_undefined) break; // fewer than k other points
     const Tf qx = xyzset[xyzsize * 0 + q];
     const Tf qy = xyzset[xyzsize * 1 + q];
     const Tf qz = xyzset[xyzsize * 2 + q];
diff --git a/src/votess.ipp b/src/votess.ipp
index c565823..2cfceb5 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -246,7 +246,7 @@ __gpu__tesellate(
       auto a = sycl::accessor(bheap_id, cgh, sycl::write_only, sycl::no_init);
       cgh.parallel_for<class fill_heap_id>
       (sycl::range<1>(bheap_id.size()), [=](sycl::id<1> idx) { 
-        a[idx] = 0; 
+        a[idx] = __INTERNAL__K_UNDEFINED; 
       });
     });
 
@@ -417,7 +417,7 @@ __cpu__tesellate(
   for (int run = 0; run < nruns; run++) {
 
     std::fill(dknn.begin(), dknn.end(), __INTERNAL__K_UNDEFINED);
-    std::fill(heap_id.begin(), heap_id.end(), 0);
+    std::fill(heap_id.begin(), heap_id.end(), __INTERNAL__K_UNDEFINED);
     std::fill(heap_pq.begin(), heap_pq.end(), 
               std::numeric_limits<Tf>::infinity());
 
@@ -526,7 +526,7 @@ __cpu__recompute(
   int p_maxsize = args["cc_p_maxsize"];
   int t_maxsize = args["cc_t_maxsize"];
 
-  std::vector<Ti> heap_id(subsize * k, 0);
+  std::vector<Ti> heap_id(subsize * k, __INTERNAL__K_UNDEFINED);
   std::vector<Tf> heap_pq(subsize * k, std::numeric_limits<Tf>::infinity());
   std::vector<Ti> dknn(subsize * k, __INTERNAL__K_UNDEFINED);
   std::vector<Ti>& knn = heap_id;
@@ -576,7 +576,7 @@ __cpu__recompute(
     T.clear();
     dR.clear();
 
-    heap_id.resize(subsize * k, 0);
+    heap_id.resize(subsize * k, __INTERNAL__K_UNDEFINED);
     heap_pq.resize(subsize * k, std::numeric_limits<Tf>::infinity());
     dknn.resize(subsize * k, __INTERNAL__K_UNDEFINED);
 
-- 
2.43.0


From c0d7e9671835e8ceaf33aa166d1af19fa16e15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 12/24] fix: recompute of a single point reads an empty heap

---
 src/votess.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 2cfceb5..8e75947 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -557,7 +557,8 @@ __cpu__recompute(
     subsize = cur;
     for (Ti i = 0; i < refsize; i++) states[i].reset();
 
-    if (subsize <= 0) {
+    // a lone point has no neighbours to look for
+    if (subsize <= 0 || refsize <= 1) {
       break;
     }
 
-- 
2.43.0


From c89837b403839b1d03ee65c579761d694fd8aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 13/24] fix: recompute keeps the status of the cells it does
 not recompute

The summary counted every finished cell as one whose security radius was not
reached.
---
 src/votess.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 8e75947..65117b6 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -555,7 +555,7 @@ __cpu__recompute(
     } 
 
     subsize = cur;
-    for (Ti i = 0; i < refsize; i++) states[i].reset();
+    for (Ti i = 0; i < subsize; i++) states[indices[i]].reset();
 
     // a lone point has no neighbours to look for
     if (subsize <= 0 || refsize <= 1) {
-- 
2.43.0


From 1df7df80da23a38f2eb3fa34c8ba2150fb488639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 14/24] fix: recompute retries overflowed cells once k is at
 its maximum

It stopped as soon as k covered all points, even if cells had overflowed P or
T, and left their raw k nearest neighbours in the result.
---
 src/votess.ipp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 65117b6..c98690d 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -623,7 +623,15 @@ __cpu__recompute(
 
     tmpnn_fill(tmpnn, indices, subsize, knn, args);
 
-    if (k >= (refsize - 1)) {
+    // more neighbours cannot help any further, but a larger workspace can
+    bool retry = k < (refsize - 1);
+    for (Ti i = 0; i < subsize; i++) {
+      const auto& s = states[indices[i]];
+      if (s.get(cc::error_p_overflow) && p_maxsize < 0xff) retry = true;
+      if (s.get(cc::error_t_overflow) && t_maxsize < 0x7fff) retry = true;
+    }
+
+    if (!retry) {
       break;
     }
 
-- 
2.43.0


From 2269615ff48a8e27cdb9727d95e255af32299cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 15/24] fix: clvotess honours --use-device

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 85a3ccb..96eab25 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -222,7 +222,7 @@ main(int argc, char* argv[]) {
 
   }
 
-  auto dnn = votess::tesellate<int, float>(xyzset, vtargs);
+  auto dnn = votess::tesellate<int, float>(xyzset, vtargs, device);
 
   dnn.print();
 
-- 
2.43.0


From 326c9ad925a77fd9acaeca7e3cbb303c33fa90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 16/24] fix: clvotess help names the option that is accepted

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 96eab25..2b02111 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -41,7 +41,7 @@ print_help(const char* const executable) {
 " -v, --version                Show version\n"
 " -i, --infile   <infile>      Specify input file. Required argument.\n"
 " -k, --k-init   <k_init>      Specify initial k for k-nearest neighbor search.\n"
-" -g, --gridres  <gridres>     Specify grid resolution for k-nearest neighbors.\n"
+" -g, --grid-resolution <n>    Specify grid resolution for k-nearest neighbors.\n"
 " -t, --cpu-nthreads <n>       Specify the number of CPU threads to use.\n"
 " -d, --gpu-ndsize <n>         Specify GPU work size (recommended in multiples of 16).\n"
 " -c, --chunksize  <n>         Specify chunk size for processing.\n"
-- 
2.43.0


From e793b9f7dba1bd8a77dfb178d0043b5d2d414719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:41 +0000
Subject: [PATCH 17/24] fix: do not truncate k and the grid resolution in the
 SYCL neighbour search

---
 src/knn.ipp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/knn.ipp b/src/knn.ipp
index 3137d57..0a42392 100644
--- a/src/knn.ipp
+++ b/src/knn.ipp
@@ -246,8 +246,8 @@ void knni::compute(
   const Tf q1 = refset[refsize * 1 + index];
   const Tf q2 = refset[refsize * 2 + index];
 
-  const uint16_t k = args.k;
-  const uint8_t gr = args.grid_resolution;
+  const int k = args.k;
+  const int gr = args.grid_resolution;
   const Tf gl = 1.0f / args.grid_resolution;
 
   const uint16_t px = (id[index]) % gr;
@@ -263,7 +263,7 @@ void knni::compute(
   const Tf min_dz = dz * (dz <= gl2) + (gl - dz) * (dz > gl2);
   const Tf min = utils::bmin(min_dx, min_dy, min_dz);
 
-  for (uint8_t r = 0; r < gr; r++) {
+  for (int r = 0; r < gr; r++) {
 
     const uint16_t beg_z = utils::bmax(pz - r, 0);
     const uint16_t beg_y = utils::bmax(py - r, 0);
-- 
2.43.0


From 6ca20e2706ba915fd24d711a20f8312adbabd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 18/24] fix: a row taken from a Python dnn keeps the dnn alive

The row is returned by value, for which reference_internal keeps nothing
alive, so a row of a temporary result read freed memory.
---
 src/pybind11/pyvotess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index dff77cc..d5dc521 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -63,7 +63,7 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
     return instance[i];
-  }, pybind11::return_value_policy::reference_internal)
+  }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
   .def("savetxt", &votess::dnn<int>::savetxt);
 
-- 
2.43.0


From cffa6bcc7996c9aa57cf08785a8745f9d1952895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 19/24] fix: raise IndexError for an index outside a Python dnn
 or row

The unchecked access also made iteration run past the end.
---
 src/pybind11/pyvotess.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index d5dc521..f07f74c 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -52,6 +52,9 @@ pybind11::class_<votess::vtargs>(module, "vtargs")
 
 pybind11::class_<votess::dnn<int>::proxy>(module, "Proxy")
   .def("__getitem__", [](votess::dnn<int>::proxy &self, int i) -> int & {
+    if (i < 0 || static_cast<size_t>(i) >= self.size()) {
+      throw pybind11::index_error("neighbor index out of range");
+    }
     return self[i];
   }, pybind11::return_value_policy::reference_internal)
   .def("size", &votess::dnn<int>::proxy::size);
@@ -62,6 +65,9 @@ pybind11::class_<votess::dnn<int>>(module, "dnn")
   .def("size", &votess::dnn<int>::size)
   .def("__getitem__", [](votess::dnn<int> &instance, int i) 
       -> votess::dnn<int>::proxy {
+    if (i < 0 || static_cast<size_t>(i) >= instance.size()) {
+      throw pybind11::index_error("row index out of range");
+    }
     return instance[i];
   }, pybind11::keep_alive<0, 1>())
   .def("print", &votess::dnn<int>::print)
-- 
2.43.0


From 84cfb70fe74b26a25d029518a0203c88d34b8b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 20/24] fix: make reading a parameter from Python work

vtargs.__getitem__ returned a type unknown to pybind11, so it always raised.
---
 src/pybind11/pyvotess.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pybind11/pyvotess.cpp b/src/pybind11/pyvotess.cpp
index f07f74c..cfac7cf 100644
--- a/src/pybind11/pyvotess.cpp
+++ b/src/pybind11/pyvotess.cpp
@@ -24,6 +24,20 @@ pybind11::enum_<votess::device>(module, "device")
 /* votess::vtargs                                                            */
 /* ------------------------------------------------------------------------- */
 
+pybind11::class_<votess::vtargref>(module, "vtargref")
+  .def("__int__", [](const votess::vtargref &self) {
+    return self.get<int>();
+  })
+  .def("__float__", [](const votess::vtargref &self) {
+    return self.get<float>();
+  })
+  .def("__bool__", [](const votess::vtargref &self) {
+    return self.get<bool>();
+  })
+  .def("__str__", [](const votess::vtargref &self) {
+    return self.get<std::string>();
+  });
+
 pybind11::class_<votess::vtargs>(module, "vtargs")
   .def(pybind11::init<>())
   .def("__getitem__", [](votess::vtargs &self, const std::string &key) 
-- 
2.43.0


From 279cf70aa71e818bef16d1f758169df87ab40f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:40 +0000
Subject: [PATCH 21/24] fix: divide the current chunk, not the previous one,
 among the threads

The share of each thread was computed from the size of the previous chunk, so
a shorter last chunk made some threads compute points of the previous chunk
again.
---
 src/votess.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index c98690d..4a37a47 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -421,12 +421,12 @@ __cpu__tesellate(
     std::fill(heap_pq.begin(), heap_pq.end(), 
               std::numeric_limits<Tf>::infinity());
 
-    const size_t threadsize  = subsize / nthreads;
-
     const size_t _cstart = run * chunksize;
     const size_t _cend = (run == nruns - 1) ? refsize : _cstart + chunksize;
     subsize = _cend - _cstart;
 
+    const size_t threadsize  = subsize / nthreads;
+
     for (Ti i = 0; i < subsize; i++) {
       indices[i] = _cstart + i;
     }
-- 
2.43.0


From acd44848b634bb50eaebcdecdadb62a26e76b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:52 +0000
Subject: [PATCH 22/24] fix: print rows of a result without any neighbour

print() wrote an empty container whenever the neighbour list was empty,
dropping the rows of points that have no neighbours.
---
 src/dnn.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnn.ipp b/src/dnn.ipp
index 44c4db6..65cc6ca 100644
--- a/src/dnn.ipp
+++ b/src/dnn.ipp
@@ -84,7 +84,7 @@ size_t votess::dnn<Ti>::size() const {
 template <typename Ti>
 void votess::dnn<Ti>::print() const {
 
-  if (this->list.empty()) {
+  if (this->size() == 0) {
     std::cout<<"{}"<<std::endl;
     return;
   }
-- 
2.43.0


From 48f0ec5c4e265ac1da1c595642a52a3c6486b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:19 +0000
Subject: [PATCH 23/24] fix: read the points with their own stride in the
 chunked GPU path

---
 src/cc.ipp     | 6 +++---
 src/votess.ipp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cc.ipp b/src/cc.ipp
index 1b84413..5e5f1ea 100644
--- a/src/cc.ipp
+++ b/src/cc.ipp
@@ -525,9 +525,9 @@ void cci::compute(
   Tf vertex[4];
   Tf bisector[4];
 
-  const Tf px = refset[refsize * 0 + index];
-  const Tf py = refset[refsize * 1 + index];
-  const Tf pz = refset[refsize * 2 + index];
+  const Tf px = xyzset[xyzsize * 0 + index];
+  const Tf py = xyzset[xyzsize * 1 + index];
+  const Tf pz = xyzset[xyzsize * 2 + index];
   
   for (Ti j = 0; j < p_initsize; j++) {
     P[4 * refsize * j + refsize * 0 + i] = p_init[4 * j + 0];
diff --git a/src/votess.ipp b/src/votess.ipp
index 4a37a47..1133e70 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -313,7 +313,7 @@ __gpu__tesellate(
         knni::compute<Ti, Tf>(
           g_index, aindices[g_index],
           axyzset, xyzsize, aid, aoffset,
-          axyzset, subsize,
+          axyzset, xyzsize,
           aheap_id, aheap_pq, subsize,
           aargs_knn
         );
-- 
2.43.0


From 4ffc76233e4ed7a9deb1d96ce22b9bf0729e0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:43 +0000
Subject: [PATCH 24/24] fix: start the GPU path from cleared cell states

---
 src/votess.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/votess.ipp b/src/votess.ipp
index 1133e70..c23e881 100644
--- a/src/votess.ipp
+++ b/src/votess.ipp
@@ -229,7 +229,8 @@ __gpu__tesellate(
   sycl::buffer<Ti,1> bheap_id(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1> bheap_pq(sycl::range<1>(subsize * k));
 
-  sycl::buffer<cc::state,1> bstates((sycl::range<1>(xyzsize)));
+  const cc::state* hstates_init = states.data();
+  sycl::buffer<cc::state,1> bstates(hstates_init, sycl::range<1>(xyzsize));
   sycl::buffer<Ti,1>      bdknn(sycl::range<1>(subsize * k));
   sycl::buffer<Tf,1>      bP(sycl::range<1>(subsize * p_maxsize * 4));
   sycl::buffer<Tu,1> bT(sycl::range<1>(subsize * t_maxsize * 3));
@@ -295,7 +296,7 @@ __gpu__tesellate(
 
       auto aP  = sycl::accessor(bP,  cgh, read_write, property::no_init());
       auto aT  = sycl::accessor(bT,  cgh, read_write, property::no_init());
-      auto astates = accessor(bstates, cgh, read_write, property::no_init());
+      auto astates = accessor(bstates, cgh, read_write);
 
       sycl::local_accessor<Tu, 1> 
       ldR(sycl::range<1>(ndsize * p_maxsize), cgh);
-- 
2.43.0

