From 109e535df7140818ed0668dc785990e0fb57b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 01/23] fix: ipf must copy marginals, the converted array dies
 at the end of each loop iteration

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..21aa7d6 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -189,7 +189,7 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
     const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
     const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From ad04d2796ca2d62511448d7fc68407b9efd59576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 02/23] fix: exhausted SobolSequence must raise StopIteration
 (buf throws out_of_range)

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 21aa7d6..1af0ae6 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -144,7 +144,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From 9c2c0d248fc25bfdc640019bf57e0e37d9c3e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 03/23] fix: SobolSequence dimension must not be truncated to
 32 bits before it is range-checked

---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 1af0ae6..d29b79c 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -133,7 +133,7 @@ py::tuple integerise1d(py::array_t<double> frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   py::array_t<double> next()
   {
-- 
2.43.0


From 02602480af3ca9d104d578f684d736b91635afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 04/23] fix: copy array inputs that are not C-contiguous
 instead of ignoring their strides

---
 src/module.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index d29b79c..5795802 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -20,6 +20,10 @@ using namespace py::literals;
 
 namespace hl {
 
+// Inputs are read as flat row-major storage, so anything that isn't C-contiguous must be copied on conversion
+template<typename T>
+using carray_t = py::array_t<T, py::array::c_style | py::array::forcecast>;
+
 template<typename T>
 T* begin(py::array_t<T>& a)
 {
@@ -35,21 +39,21 @@ T* end(py::array_t<T>& a)
 }
 
 template<typename T>
-const T* cbegin(const py::array_t<T>& a)
+const T* cbegin(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr;
 }
 
 template<typename T>
-const T* cend(const py::array_t<T>& a)
+const T* cend(const carray_t<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-std::vector<T> toVector(const py::array_t<T>& a)
+std::vector<T> toVector(const carray_t<T>& a)
 {
   if (a.ndim() != 1)
   {
@@ -59,7 +63,7 @@ std::vector<T> toVector(const py::array_t<T>& a)
 }
 
 template<typename T>
-NDArray<T> toNDArray(const py::array_t<T>& np)
+NDArray<T> toNDArray(const carray_t<T>& np)
 {
   const size_t dim = np.ndim();
   std::vector<int64_t> sizes(dim);
@@ -71,7 +75,7 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 }
 
 template<typename T>
-NDArray<T> asNDArray(const py::array_t<T>& np)
+NDArray<T> asNDArray(const carray_t<T>& np)
 {
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
@@ -85,7 +89,7 @@ py::array_t<T> fromNDArray(const NDArray<T>& a)
 
 }
 
-py::list flatten(const py::array_t<int64_t>& a)
+py::list flatten(const carray_t<int64_t>& a)
 {
   const NDArray<int64_t> array = asNDArray<int64_t>(a);
 
@@ -107,7 +111,7 @@ py::list flatten(const py::array_t<int64_t>& a)
   return outer;
 }
 
-py::tuple integerise1d(py::array_t<double> frac_a, int pop)
+py::tuple integerise1d(carray_t<double> frac_a, int pop)
 {
   if (pop < 0)
   {
@@ -161,7 +165,7 @@ private:
 
 
 
-py::tuple integerise(const py::array_t<double>& npseed)
+py::tuple integerise(const carray_t<double>& npseed)
 {
   const NDArray<double> seed = asNDArray<double>(npseed); // shallow copy
   Integeriser integeriser(seed);
@@ -173,7 +177,7 @@ py::tuple integerise(const py::array_t<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const carray_t<double>& seed, const py::list& ilist, const py::list& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -186,8 +190,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<double> ma = mlist[i].cast<carray_t<double>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.push_back(toNDArray<double>(ma));
   }
@@ -218,8 +222,8 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<int64_t> ma = mlist[i].cast<carray_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -239,7 +243,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const carray_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -252,8 +256,8 @@ py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const carray_t<int64_t> ia = ilist[i].cast<carray_t<int64_t>>();
+    const carray_t<int64_t> ma = mlist[i].cast<carray_t<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -324,7 +328,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const py::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::carray_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From bc4cf5ea2f39b1facb8bb34830198a05b92729f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 05/23] fix: reject arrays with no dimensions, empty dimensions
 or an unrepresentable size

---
 src/NDArray.h | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..b18d453 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -2,6 +2,7 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 
 #include <vector>
@@ -39,14 +40,7 @@ public:
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
     : m_dim(sizes.size()), m_sizes(sizes)
   {
-    assert(m_sizes.size());
-    m_storageSize = sizes[0];
-    assert(m_storageSize < MaxSize);
-    for (size_t i = 1; i < m_dim; ++i)
-    {
-      assert(sizes[i] < MaxSize);
-      m_storageSize *= sizes[i];
-    }
+    m_storageSize = computeStorageSize(sizes);
     computeOffsets();
 
     m_data = storage;
@@ -113,17 +107,12 @@ public:
   {
     if (m_owned)
     {
-      m_dim = sizes.size();
+      const size_t newStorageSize = computeStorageSize(sizes);
       size_t oldStorageSize = m_storageSize;
 
+      m_dim = sizes.size();
       m_sizes = sizes;
-      m_storageSize = sizes[0];
-      assert(m_storageSize < MaxSize);
-      for (size_t i = 1; i < m_dim; ++i)
-      {
-        assert(sizes[i] < MaxSize);
-        m_storageSize *= sizes[i];
-      }
+      m_storageSize = newStorageSize;
 
       // no realloc if storageSize already big enough
       if (m_storageSize > oldStorageSize)
@@ -202,6 +191,23 @@ public:
 
 private:
 
+  // Total number of elements. There must be at least one dimension, no dimension can be empty and the total must be representable
+  static size_t computeStorageSize(const std::vector<int64_t>& sizes)
+  {
+    if (sizes.empty())
+      throw std::runtime_error("array must have at least one dimension");
+    size_t storageSize = 1;
+    for (size_t i = 0; i < sizes.size(); ++i)
+    {
+      if (sizes[i] < 1)
+        throw std::runtime_error("array has an empty (or negative size) dimension");
+      if ((size_t)sizes[i] > std::numeric_limits<size_t>::max() / sizeof(T) / storageSize)
+        throw std::runtime_error("array is too large");
+      storageSize *= sizes[i];
+    }
+    return storageSize;
+  }
+
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-- 
2.43.0


From c6c80cea9e24222aa9a7ba0fa14ef75479b7fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 06/23] fix: NDArray::resize must not leave a freed pointer
 behind if allocation fails

---
 src/NDArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NDArray.h b/src/NDArray.h
index b18d453..3b9e551 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -118,6 +118,7 @@ public:
       if (m_storageSize > oldStorageSize)
       {
         deallocate(m_data);
+        m_data = 0; // in case allocate throws
         m_data = allocate(m_storageSize);
       }
       computeOffsets();
-- 
2.43.0


From 9932b60dd63b1b2f178800a115dd29b1b0f57d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 07/23] fix: iterating an index with no free dimensions must
 terminate (marginal spanning every dimension)

---
 src/Index.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..78fb70e 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -105,6 +105,9 @@ MappedIndex::MappedIndex(const Index& idx, const std::vector<int64_t>& mappedDim
 
 const MappedIndex& MappedIndex::operator++()
 {
+  // with no mapped dimensions there is only a single position
+  if (m_dim == 0)
+    m_atEnd = true;
   for (int64_t i = m_dim - 1; i != -1ll; --i)
   {
     ++*m_mappedIndex[i];
@@ -170,6 +173,9 @@ FixedIndex::FixedIndex(const std::vector<int64_t>& sizes, const std::vector<std:
 
 const FixedIndex& FixedIndex::operator++()
 {
+  // with no free dimensions there is only a single position
+  if (m_freeDim == 0)
+    m_atEnd = true;
   for (int64_t i = m_freeDim - 1; i != -1ll; --i)
   {
     ++*m_freeIndex[i];
-- 
2.43.0


From 37ef320fb13e4af328f64d16a6a20e6f801c5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 08/23] fix: reject a marginal that maps to the same dimension
 twice

---
 src/Microsynthesis.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..c6257e8 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -44,6 +44,8 @@ public:
       {
         int64_t dim = m_indices[k][j];
         int64_t size = m_marginals[k].size(j);
+        if (std::find(m_indices[k].begin(), m_indices[k].begin() + j, dim) != m_indices[k].begin() + j)
+          throw std::runtime_error("dimension %% is repeated in index %%"s % dim % k);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
         if (posit == dim_sizes.end())
-- 
2.43.0


From 8908257f32a5ed596d4dc62bbe3827e368f5a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 09/23] fix: reject marginals whose total is not finite or not
 representable

---
 src/Microsynthesis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index c6257e8..7ca6011 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -61,6 +61,9 @@ public:
     // validate marginals
     for (size_t k = 0; k < m_marginals.size(); ++k)
     {
+      // total must be finite and representable as an integer (this also picks up any non-finite element)
+      if (!(std::fabs(static_cast<double>(sum(m_marginals[k]))) < 9e18))
+        throw std::runtime_error("total of marginal %% is not finite, or is too large"s % k);
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
     }
-- 
2.43.0


From 1cf7e1e1c8e09790dcc92f0cbdb881f9f1492b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 10/23] fix: ipf must not report convergence when the errors
 are not finite

---
 src/IPF.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..50a1445 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -104,6 +104,7 @@ private:
 
   bool computeErrors(std::vector<NDArray<double>>& diffs)
   {
+    bool conv = true;
     m_maxError = -std::numeric_limits<double>::max();
 
     // // create mapped indices
@@ -114,11 +115,15 @@ private:
       {
         double e = std::fabs(diffs[k][index]);
         m_errors[k][index] = e;
-        m_maxError = std::max(m_maxError, e);
+        // NB must not lose NaNs, which always compare false
+        if (!(e <= m_maxError) && !std::isnan(m_maxError))
+          m_maxError = e;
+        if (!(e < m_tol))
+          conv = false;
       }
     }
 
-    return m_maxError < m_tol;
+    return conv;
   }
 
   NDArray<double> m_seed;
-- 
2.43.0


From 9daa3991b6af286c45637d2a7f92086fa42efba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:40 +0000
Subject: [PATCH 11/23] fix: nlopt_sobol_skip must terminate for n > 2^31

---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..4279a7e 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -231,7 +231,7 @@ void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
   if (s)
   {
 	  uint32_t k = 1;
-	  while (k*2 < n) k *= 2;
+	  while ((uint64_t)k*2 < n) k *= 2;
 	  while (k-- > 0) sobol_gen(s, x);
   }
 }
-- 
2.43.0


From 22a5bdb34b6411d1d8fcfeb2785a28fb5502e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:40 +0000
Subject: [PATCH 12/23] fix: check for failure to allocate the Sobol generator
 state

---
 src/Sobol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..e46c267 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -2,6 +2,7 @@
 #include "Log.h"
 
 #include <limits>
+#include <new>
 #include <stdexcept>
 #include <cstdint>
 
@@ -14,6 +15,8 @@ Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) //
   }
 
   m_s = nlopt_sobol_create(dim);
+  if (!m_s)
+    throw std::bad_alloc();
   if (nSkip > 0)
     skip(nSkip);
 }
@@ -52,6 +55,8 @@ void Sobol::reset(uint32_t nSkip)
 {
   nlopt_sobol_destroy(m_s);
   m_s = nlopt_sobol_create(m_dim);
+  if (!m_s)
+    throw std::bad_alloc();
   if (nSkip > 0)
     skip(nSkip);
 }
-- 
2.43.0


From f96ba789120b62130d47ee26a87605df7584b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:40 +0000
Subject: [PATCH 13/23] fix: reject a negative or out-of-range number of skips
 rather than wrapping it to a huge one

---
 src/QIS.cpp      | 2 ++
 src/QISI.cpp     | 2 ++
 src/rcpp_api.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..74b83a9 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -159,6 +159,8 @@ void sample(std::vector<int64_t>& dims, const std::vector<uint32_t>& seq, const
 QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
 : Microsynthesis(indices, marginals), m_sobolSeq(m_dim), m_conv(false)
 {
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::runtime_error("invalid number of skips: %%"s % skips);
   m_sobolSeq.skip(skips);
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
diff --git a/src/QISI.cpp b/src/QISI.cpp
index 2cd9c93..1156235 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -70,6 +70,8 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::runtime_error("invalid number of skips: %%"s % skips);
   m_sobolSeq.skip(skips);
 }
 
diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..89c27f3 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -454,6 +454,9 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 {
   static const double scale = 0.5 / (1ull<<31);
 
+  if (skip < 0)
+    throw std::runtime_error("number of skips cannot be negative");
+
   NumericMatrix m(n, dim);
 
   Sobol s(dim, skip);
-- 
2.43.0


From e13a8b6198b6e1c818274e8aecef57bce79d37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:40 +0000
Subject: [PATCH 14/23] fix: qisi must sample from its own Sobol sequence so
 that skips and reset have an effect

---
 src/QISI.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index 1156235..5946e5d 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -72,7 +72,8 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
 {
   if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
     throw std::runtime_error("invalid number of skips: %%"s % skips);
-  m_sobolSeq.skip(skips);
+  if (skips > 0)
+    m_sobolSeq.skip(skips);
 }
 
 // control state of Sobol via arg?
@@ -103,11 +104,10 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
   const std::vector<MappedIndex>& mappedIndices = makeMarginalMappings(main_index);
   m_array.assign(0ll);
 
-  Sobol sobol_seq(m_dim);
   for (int64_t i = 0; i < m_population; ++i)
   {
     // map sobol to a point in state space, store in index
-    const std::vector<uint32_t>& seq = sobol_seq.buf();
+    const std::vector<uint32_t>& seq = m_sobolSeq.buf();
     // ...
     getIndex(m_ipfSolution, seq, main_index);
 
-- 
2.43.0


From b49ed94e1eca66f4eff3331294e975ee1304d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 15/23] fix: qis expectation of an empty (or infeasible)
 population must not be NaN

---
 src/QIS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 74b83a9..2e7607b 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -167,7 +167,8 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   computeStateValues();
   NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
   // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
+  double total = sum(m_stateValues);
+  double scale = total > 0.0 ? double(m_population) / total : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
 #ifdef VERBOSE
-- 
2.43.0


From 740f0203245f3f13e323bf24509ee8bfecdd7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 16/23] fix: impossible states must not make the chi-squared
 statistic NaN

---
 src/StatFuncs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..ad95aa2 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // a state that is neither expected nor sampled does not contribute (0/0)
+    if (reference[index] == U(0) && sample[index] == T(0))
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From babd0bd65a70dda84813ebda834b38be4104add8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 17/23] fix: integerise must reject totals that are not finite
 or not representable

---
 src/Integerise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..b4289e2 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -13,7 +13,7 @@ namespace {
 
 int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantissa precision
 {
-  if (fabs(x - round(x)) > tol)
+  if (!(fabs(x - round(x)) <= tol) || fabs(x) > 9e18)
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
   return (int64_t)round(x);
 }
-- 
2.43.0


From 79d4a7c969e35b514042af51ebcd5e0c6f3b26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 18/23] fix: integerising negative, non-finite or all-zero
 frequencies must fail rather than return garbage

---
 src/Integerise.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index b4289e2..d3da849 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -23,6 +23,13 @@ int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantiss
 std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, int pop, double& rmse)
 {
   const size_t n = p.size();
+  if (n == 0)
+    throw std::runtime_error("no frequencies supplied");
+  for (size_t i = 0; i < n; ++i)
+  {
+    if (!(p[i] >= 0.0) || p[i] > std::numeric_limits<double>::max())
+      throw std::runtime_error("invalid frequency at index %%: %%"s % i % p[i]);
+  }
   std::vector<int> f(n);
   std::vector<double> r(n);
 
-- 
2.43.0


From d4542aa7a9e737417e2a5573a1319a68197b2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 19/23] fix: 1-d integerise must round (not truncate) the total
 and reject totals that overflow

---
 src/Integerise.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index d3da849..080a9f7 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -62,16 +62,19 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   // construct 1-d integer marginals in each dim
   size_t dim = m_seed.dim();
   // check total population is integral (or close)
-  checked_round(sum(m_seed));
+  const int64_t total = checked_round(sum(m_seed));
 
   // 1-d special case: use prob2IntFreq
   if (dim == 1)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
+    if (total < 0 || total > std::numeric_limits<int>::max())
+      throw std::runtime_error("total population %% is out of range"s % total);
+    int pop = static_cast<int>(total);
     // convert to probabilities
-    for (auto& x: p) x /= pop;
+    if (pop > 0)
+      for (auto& x: p) x /= pop;
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
-- 
2.43.0


From 26c6a7447c057f31cd134a23a22a0056be172327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 20/23] fix: flatten must reject negative counts rather than
 write out of bounds

---
 src/NDArrayUtils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..82daeec 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -204,6 +204,8 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
 template<typename T>
 std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int offset = 0)
 {
+  if (min(t) < 0)
+    throw std::runtime_error("cannot list a population with negative counts");
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
 
-- 
2.43.0


From 0778c36349f103e77d774bdfadf936ea732b7fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 21/23] fix: max of an array must not return its minimum

---
 src/NDArrayUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 82daeec..955aa18 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -56,12 +56,12 @@ T min(const NDArray<T>& a)
 template<typename T>
 T max(const NDArray<T>& a)
 {
-  T minVal = std::numeric_limits<T>::max();
+  T maxVal = std::numeric_limits<T>::lowest();
   for (Index i(a.sizes()); !i.end(); ++i)
   {
-    minVal = std::min(minVal, a[i]);
+    maxVal = std::max(maxVal, a[i]);
   }
-  return minVal;
+  return maxVal;
 }
 
 // TODO move printing somehwere else
-- 
2.43.0


From 8d2805c14e202faf0ed08b9475bdd9689873c7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 22/23] fix: R entry points must check sizes before indexing
 (seed dimensions, index lengths, category names)

---
 src/rcpp_api.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 89c27f3..92c0aeb 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -77,6 +77,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
     {
       colMajorSizes.push_back(mv.size());
     }
+    if (static_cast<size_t>(iv.size()) != colMajorSizes.size())
+      throw std::runtime_error("mismatch between dimensions of index and marginal " + std::to_string(i+1));
     for (size_t j = 0; j < colMajorSizes.size(); ++j)
     {
       lookup[iv[j]] = colMajorSizes[j];
@@ -91,7 +93,11 @@ std::vector<int64_t> getDimension(List indices, List marginals)
 
 void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
 {
+  if (!seed.hasAttribute("dim"))
+    throw std::runtime_error("seed has no dimensions");
   const Dimension& seedDim = seed.attr("dim");
+  if (static_cast<size_t>(seedDim.size()) != impliedDim.size())
+    throw std::runtime_error("mismatch between number of seed dimensions and that implied by marginals");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
     if (seedDim[i] != impliedDim[i])
@@ -487,6 +493,8 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   //m.push_back(std::move(convertRArray<int64_t, IntegerVector>(nv)));
   const NDArray<int64_t>& a = Rhelpers::convertArray<int64_t, IntegerVector>(stateOccupancies);
   int64_t pop = sum(a);
+  if (static_cast<size_t>(categoryNames.size()) != a.dim())
+    throw std::runtime_error("number of category names differs from number of dimensions");
 
   // for R indices start at 1
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
-- 
2.43.0


From 9ab34ead438ce67edcc8f5033809db35921dc0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 23/23] fix: reject negative positions in slice

---
 src/NDArrayUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 955aa18..7a3413e 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -178,7 +178,7 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
   {
     if ((size_t)fixedDims[i].first >= outer.dim())
       throw std::runtime_error("dimension out of bounds in slice");
-    if (fixedDims[i].second >= outer.sizes()[fixedDims[i].first])
+    if (fixedDims[i].second < 0 || fixedDims[i].second >= outer.sizes()[fixedDims[i].first])
       throw std::runtime_error("index out of bounds in slice");
   }
   // if dims empty have to make a complete copy of marginal and return it, which is massively inefficient
-- 
2.43.0

