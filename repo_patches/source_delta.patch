From 293d65830e07ed646b3cd526205f104097456537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 1/8] fix: sign of the nodal phase of 2SM2 (u = -2xi + 2nu as
 documented)

---
 include/fes/wave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..81a40c3 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From 9b11201e62e9c4f2fef552c26e667296b4c4784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:34 +0000
Subject: [PATCH 2/8] fix: list the known constituents in identifier order
 (table[kSa1] returned A5, ...)

---
 src/library/constituent.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..30f1e47 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -37,9 +37,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From f95675d0a39f6719198b27416905816a7ad90d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 3/8] fix: copy the waves when a wave table is copied (const
 computations modified the table they were called on)

---
 include/fes/wave/table.hpp | 15 +++++++++++++++
 src/library/wave/table.cpp | 17 +++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..3189832 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -120,6 +120,21 @@ class Table {
   /// Build a table from a list of constituent identifiers
   explicit Table(const std::vector<Constituent>& waves);
 
+  /// Copy constructor: the copy owns its own waves.
+  Table(const Table& other);
+
+  /// Copy assignment: the copy owns its own waves.
+  auto operator=(const Table& other) -> Table&;
+
+  /// Move constructor
+  Table(Table&&) noexcept = default;
+
+  /// Move assignment operator
+  auto operator=(Table&&) noexcept -> Table& = default;
+
+  /// Default destructor
+  ~Table() = default;
+
   /// Create a wave properties from its identifier
   /// @param[in] ident Wave identifier
   /// @return Wave properties
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..e5f9239 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -226,6 +226,23 @@ Table::Table(const std::vector<Constituent>& waves) {
   *this = Table(wave_names);
 }
 
+Table::Table(const Table& other)
+    : getter_(other.getter_), wave_index_(other.wave_index_) {
+  waves_.reserve(other.waves_.size());
+  for (const auto& item : other.waves_) {
+    auto wave = item ? Table::wave_factory(item->ident()) : nullptr;
+    if (wave) {
+      *wave = *item;
+    }
+    waves_.emplace_back(std::move(wave));
+  }
+}
+
+auto Table::operator=(const Table& other) -> Table& {
+  *this = Table(other);
+  return *this;
+}
+
 void Table::admittance() {
   // Arrays who contains the spline coefficients needed to compute MU2, NU2,
   // L2, T2 and Lambda2 by admittance.
-- 
2.43.0


From d898355202787416e31562f98cee6b715dcfee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 4/8] fix: tide_from_mapping accumulated into uninitialised
 memory

---
 src/library/wave/table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index e5f9239..6553285 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -447,8 +447,8 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         const auto& item = wt[jx];
         double phi = item->vu();
 
-        result(ix, jx) += item->f() * (wave(jx, ix).real() * std::cos(phi) +
-                                       wave(jx, ix).imag() * std::sin(phi));
+        result(ix, jx) = item->f() * (wave(jx, ix).real() * std::cos(phi) +
+                                      wave(jx, ix).imag() * std::sin(phi));
       }
     }
   };
-- 
2.43.0


From 0e6c560d224ac7209e8797097e8f768a26fdffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 5/8] fix: parallel_for divided by zero when there is nothing
 to process

---
 include/fes/detail/thread.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..1c2c26f 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,7 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -23,9 +24,14 @@ namespace detail {
 template <typename Lambda>
 void parallel_for(const Lambda& callable, const size_t size,
                   size_t num_threads) {
-  // If num_threads is 0, use all CPUs
+  // Nothing to process
+  if (size == 0) {
+    return;
+  }
+
+  // If num_threads is 0, use all CPUs (0 if their number is not known)
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads = std::max(std::thread::hardware_concurrency(), 1U);
   }
 
   // Adjust num_threads to not exceed the size
-- 
2.43.0


From 34e981f335e0e7a6b96b929b70fab54a9813da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:31 +0000
Subject: [PATCH 6/8] fix: data race on the exception reported by parallel_for

---
 include/fes/detail/thread.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 1c2c26f..c9fc9ee 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -6,6 +6,8 @@
 /// @brief Parallelization
 #pragma once
 #include <algorithm>
+#include <exception>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -46,6 +48,7 @@ void parallel_for(const Lambda& callable, const size_t size,
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
   std::exception_ptr exception = nullptr;
+  std::mutex exception_mutex;
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -56,10 +59,12 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, &exception,
+                          &exception_mutex]() {
       try {
         callable(start, end);
       } catch (...) {
+        const std::lock_guard<std::mutex> lock(exception_mutex);
         exception = std::current_exception();
       }
     });
-- 
2.43.0


From aab32a04862d3407dc3a54e12dd570fdf4240936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:01 +0000
Subject: [PATCH 7/8] fix: the floating remainder takes the sign of a negative
 divisor too, as documented

---
 include/fes/detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..2e03a24 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -202,7 +202,7 @@ template <typename T, typename std::enable_if<std::is_floating_point<T>::value,
                                               T>::type* = nullptr>
 constexpr auto remainder(const T& x, const T& y) noexcept -> T {
   auto result = std::remainder(x, y);
-  if (result < T(0) && y > T(0)) {
+  if ((result < T(0) && y > T(0)) || (result > T(0) && y < T(0))) {
     result += y;
   }
   return result;
-- 
2.43.0


From 8036b54d95d61f24ea53b06f8920ef803da74156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:47 +0000
Subject: [PATCH 8/8] fix: normalize_angle returned the excluded end of its
 range for values just below min

---
 include/fes/detail/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index 2e03a24..4fdb11c 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -217,7 +217,9 @@ constexpr auto remainder(const T& x, const T& y) noexcept -> T {
 template <typename T>
 constexpr auto normalize_angle(const T& x, const T& min = T(-180),
                                const T& circle = T(360)) noexcept -> T {
-  return remainder(x - min, circle) + min;
+  auto result = remainder(x - min, circle) + min;
+  // A value just below min is rounded to the (excluded) end of the range.
+  return result >= min + circle ? min : result;
 }
 
 /// True if a and b are two values identical to an epsilon.
-- 
2.43.0

