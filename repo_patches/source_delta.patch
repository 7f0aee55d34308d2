From 84c3ecc4ee1e9acafb4f07b44d85039eb092a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 01/72] fix: make unary plus of arithmetic containers return a
 copy of the derived container

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..4773d89 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -142,7 +142,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -228,7 +228,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From 733158ebac0b1ba071dc5fd4f0ebaf9e01a8a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 02/72] fix: take the scalar operand of in-place operators by
 value, as it may alias an element

---
 LitlContainer/LitlContainer/Arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 4773d89..29bd45f 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [=](auto e) { \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
-- 
2.43.0


From da1594d82f96a21fb5a8a58ad9397612317d39a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 03/72] fix: make scalar - container element-wise instead of
 building a container from the scalar

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 29bd45f..206f3b9 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -138,6 +137,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
 
   /// @group_operations
 
+  /**
+   * @brief a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /**
    * @brief Copy.
    */
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -224,6 +233,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
 
   /// @group_operations
 
+  /**
+   * @brief a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /**
    * @brief Copy.
    */
-- 
2.43.0


From fe6380e559d4bca0ad3fa605c781f5bc627c0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 04/72] fix: transfer ownership of the memory in
 AlignedBuffer's move constructor instead of leaking it

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..3f53fd2 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,7 +137,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
-- 
2.43.0


From 73391d54f09212306085ffaac2a829a5ca737d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 05/72] fix: release the previously owned memory when assigning
 to an AlignedBuffer

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 3f53fd2..20e6c70 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -147,6 +147,7 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +167,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From b212400a5ab551bf936a53a16fa8079a14fdff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 06/72] fix: throw a SizeError instead of an undeclared
 std::runtime_error for std::array size mismatch

---
 LitlContainer/LitlContainer/Holders.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/LitlContainer/LitlContainer/Holders.h b/LitlContainer/LitlContainer/Holders.h
index 42f1f0a..bc503d7 100644
--- a/LitlContainer/LitlContainer/Holders.h
+++ b/LitlContainer/LitlContainer/Holders.h
@@ -9,7 +9,6 @@
 
 #include <algorithm> // copy_n
 #include <array>
-#include <exception> // runtime_error
 #include <valarray>
 #include <vector>
 
@@ -156,9 +155,7 @@ public:
 
   explicit StdHolder(std::size_t size, const T* data = nullptr) : m_container {} {
     if (size != N && size != 0) { // TODO allow size < N? => add m_size
-      std::string msg = "Size mismatch in StdHolder<std::array> specialization. ";
-      msg += "Got " + std::to_string(size) + ", should be 0 or " + std::to_string(N) + ".";
-      throw std::runtime_error(msg);
+      throw SizeError(size, N);
     }
     if (data) {
       std::copy_n(data, size, m_container.begin());
-- 
2.43.0


From 032a5ecf9be4cc3136565ca364ced377e6dbd31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 07/72] fix: weight the neighbors of a quantile according to
 their distance

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..fff9fd0 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -151,7 +151,9 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    const T inf = nth(f); // Copy because nth() may reorder the values
+    const T sup = nth(f + 1);
+    return inf * (1. - d) + sup * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 175e72711a904f5129bdc45e7f8acac5c9231e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/72] fix: compute the mean as a floating point value

---
 LitlContainer/LitlContainer/DataDistribution.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index fff9fd0..5580820 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -107,7 +107,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return sum() / size();
+    return Floating(sum()) / Floating(size());
   }
 
   /**
-- 
2.43.0


From 3707f26b9e9d755185d75b50180a33d102215a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 09/72] fix: make DataDistribution::variance compile and not
 round intermediate values

---
 LitlContainer/LitlContainer/DataDistribution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 5580820..14a1c59 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -121,7 +121,8 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    const auto m = mean();
+    return (Floating(m_sum2) - Floating(m_sum) * m) / Floating(size() - unbiased);
   }
 
   /**
-- 
2.43.0


From 8dbcc3b1aa22e276706ab0f03a0713e533a20cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 10/72] fix: do not truncate absolute deviations from the
 median

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 14a1c59..9eed675 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -129,12 +129,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From 05c54f0b16b86b94cfeb85534f0fa1c312c5266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 11/72] fix: count the values at the upper edge in the last
 histogram bin instead of writing past the end

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 9eed675..d64f51f 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -179,8 +179,8 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    for (; it != m_values.end() && *it == bins.back(); ++it) {
+      ++out.back();
     }
     return out;
   }
-- 
2.43.0


From 3a24f1579c1c3c69bfcf1db8a6b47f43325ce0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 12/72] fix: copy the range step, which may be an element of
 the container

---
 LitlContainer/LitlContainer/DataContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..6cf9644 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const T s = step; // Copy because step may be one of the elements
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += s;
     }
     return t;
   }
-- 
2.43.0


From 42c87bd7a8de78699533286ba1c854eddb1cbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 13/72] fix: support empty, single-element, decreasing and
 self-referencing linspaces

---
 LitlContainer/LitlContainer/DataContainer.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 6cf9644..99de888 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -161,12 +161,20 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
-    auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+    using Step = std::common_type_t<T, Index>; // Signed for integers
+    const auto size = this->size();
+    if (size == 0) {
+      return static_cast<TDerived&>(*this);
     }
-    *it = max;
+    const T first = min; // Copy because bounds may be elements
+    const T last = max;
+    if (size > 1) {
+      const Step step = (Step(last) - Step(first)) / Step(size - 1);
+      for (std::size_t i = 0; i < size - 1; ++i) {
+        (*this)[i] = T(Step(first) + step * Step(i));
+      }
+    }
+    (*this)[size - 1] = last;
     return static_cast<TDerived&>(*this);
   }
 
-- 
2.43.0


From 27b651661254ea870f1106cf6a10a8b1c8c2d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 14/72] fix: compute the floor of negative integral values

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From 2ad64d6414090f7305b8d66fc3523fbc748e0f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 15/72] fix: compute the back of a segment from its front and
 size

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..1401878 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + Index(size) - 1);
   }
 
   Index front() const {
-- 
2.43.0


From 75be1817f59f7a9baee8fd4d0c345ee5e1194e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 16/72] fix: check the size of the values against the stored
 shape, as the argument was moved from

---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
-- 
2.43.0


From 3071e4cd425d6cf6bcb93ef8112bdb36620ea0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:29 +0000
Subject: [PATCH 17/72] fix: make element-wise min and max of containers
 callable, as they were hidden by the extrema accessors

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 99de888..de19e5c 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -94,6 +94,9 @@ public:
    */
   using Holder::data;
 
+  using MathFunctionsMixin<T, TDerived>::min;
+  using MathFunctionsMixin<T, TDerived>::max;
+
   /**
    * @brief Access the raw data.
    */
-- 
2.43.0


From f6d240553e9ead07fee56afc02bd8b4659b79e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 18/72] fix: accumulate moments as floating point values, as
 sums of integers overflow

---
 .../LitlContainer/DataDistribution.h          | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index d64f51f..ab02a83 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -46,10 +46,12 @@ public:
    */
   explicit DataDistribution(std::vector<T>&& values) :
       m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_total(0), m_total2(0) {
     for (const auto& v : m_values) {
+      const Floating f(v);
       m_sum += v;
-      m_sum2 += v * v;
+      m_total += f;
+      m_total2 += f * f;
     }
   }
 
@@ -107,7 +109,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return Floating(sum()) / Floating(size());
+    return m_total / Floating(size());
   }
 
   /**
@@ -122,7 +124,7 @@ public:
    */
   Floating variance(bool unbiased = true) {
     const auto m = mean();
-    return (Floating(m_sum2) - Floating(m_sum) * m) / Floating(size() - unbiased);
+    return (m_total2 - m_total * m) / Floating(size() - unbiased);
   }
 
   /**
@@ -214,9 +216,14 @@ private:
   T m_sum;
 
   /**
-   * @brief The cached sum of squares.
+   * @brief The cached sum, free from integer overflow.
    */
-  T m_sum2;
+  Floating m_total;
+
+  /**
+   * @brief The cached sum of squares, free from integer overflow.
+   */
+  Floating m_total2;
 };
 
 } // namespace Litl
-- 
2.43.0


From 28897db11579bb533edd0f75fc9ca35eaee542b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 19/72] fix: make NullPtrError::mayThrow callable without an
 error instance

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 0a12817..538e4bf 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -78,7 +78,7 @@ public:
   /**
    * @brief Throw if a given pointer is null.
    */
-  void mayThrow(const void* ptr, const std::string& message) {
+  static void mayThrow(const void* ptr, const std::string& message) {
     if (not ptr) {
       throw NullPtrError(message);
     }
-- 
2.43.0


From a04ac28c25b9e52e1384a3ef4acc563f20592913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 20/72] fix: make the half limits of complex types compile

---
 LitlTypes/LitlTypes/TypeUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index e82796e..195f115 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -246,14 +246,14 @@ struct Limits {
    * @brief The min over two.
    */
   static T halfMin() {
-    return min() / 2;
+    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::lowest() / 2);
   }
 
   /**
    * @brief The max over two in general, rounded up for integers, or `true` for Booleans.
    */
   static T halfMax() {
-    return max() / 2 + std::is_integral<T>::value;
+    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::max() / 2 + std::is_integral<Scalar>::value);
   }
 };
 
-- 
2.43.0


From 19d50cdd38f8c54aba74c349209190da79967068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:31 +0000
Subject: [PATCH 21/72] fix: set the difference between consecutive integers to
 1 instead of 0

---
 LitlTypes/LitlTypes/TypeUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index 195f115..a83134f 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -225,7 +225,8 @@ struct Limits {
    * @brief The difference between two consecutive values.
    */
   static T epsilon() {
-    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::epsilon());
+    return TypeTraits<T>::fromScalar(
+        std::is_integral<Scalar>::value ? Scalar(1) : std::numeric_limits<Scalar>::epsilon());
   }
 
   /**
-- 
2.43.0


From 96413ea6bb993bf89b9585a0b01d500e9c3e7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:58 +0000
Subject: [PATCH 22/72] fix: fill Vector::inf() with inf instead of -inf

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From ab193c6fbf21c23ce73f4a715d75e19314b7fd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:58 +0000
Subject: [PATCH 23/72] fix: post-increment sampling iterators and return their
 previous value

---
 LitlRaster/LitlRaster/Sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..7d6ccbd 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -32,7 +32,7 @@ public:
     }
 
     T* operator->() {
-      return *m_current;
+      return &m_current;
     }
 
     Iterator& operator++() {
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
-- 
2.43.0


From 6eb4eb8187dd78e039540a413938144803593d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 24/72] fix: end the data samples after the last sample instead
 of past the data

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 7d6ccbd..fd261ad 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -349,7 +349,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -363,7 +363,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From 20910d6c3b94d5d644b887adc6254e9782d6113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 25/72] fix: move the data pointer of post-incremented data
 samples

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index fd261ad..70eef49 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -318,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
-- 
2.43.0


From c00f54c76e85824fe02b550e47f04a89dfad5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 26/72] fix: move data samples by integral offsets whatever
 their type

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 70eef49..f7f7f7f 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -325,7 +325,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -333,7 +333,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From 7c6b143f9df40bccd263eacfff1a83add190e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 27/72] fix: make it possible to get the vector of read-only
 data samples

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index f7f7f7f..f0789fc 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -369,8 +369,8 @@ public:
   /**
    * @brief Generate a vector of the samples.
    */
-  std::vector<T> vector() const {
-    return std::vector<T>(begin(), end());
+  std::vector<std::remove_cv_t<T>> vector() const {
+    return std::vector<std::remove_cv_t<T>>(begin(), end());
   }
 
 private:
-- 
2.43.0


From 83074eb7a4ac50f4eb8d7ee3eff69c0622bc6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 28/72] fix: make the sampling along a run time axis compile

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index f0789fc..637e6f5 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -156,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From eeef0367b4f7c80cdf1377b22306fb8c0a6bdbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:10 +0000
Subject: [PATCH 29/72] fix: sample every axis of variable dimension positions

---
 LitlRaster/LitlRaster/Sampling.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 637e6f5..f934fdb 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -127,7 +127,12 @@ public:
   /**
    * @brief Constructor.
    */
-  PositionSampling(const Box<N>& box, const Position<N>& step = Position<N>::one()) : m_samplings(step.size()) {
+  PositionSampling(const Box<N>& box) : PositionSampling(box, Position<N>(box.shape()).fill(1)) {}
+
+  /**
+   * @copybrief PositionSampling()
+   */
+  PositionSampling(const Box<N>& box, const Position<N>& step) : m_samplings(step.size()) {
     for (std::size_t i = 0; i < m_samplings.size(); ++i) {
       m_samplings[i] = {box.front()[i], box.back()[i], step[i]};
     }
@@ -137,7 +142,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
-- 
2.43.0


From e791d69cbfcd4f072e11d4058d6f18a166d7224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 30/72] fix: set the size of empty boxes to 0 even if several
 lengths are negative

---
 LitlRaster/LitlRaster/Box.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..ee18896 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -95,7 +95,13 @@ public:
    * @brief Compute the box size, i.e. number of positions.
    */
   Index size() const {
-    return shapeSize(shape());
+    const auto lengths = shape();
+    for (auto l : lengths) {
+      if (l <= 0) {
+        return 0;
+      }
+    }
+    return shapeSize(lengths);
   }
 
   /**
-- 
2.43.0


From 450a898690ccc690a924b0a09f6b2c5485da12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 31/72] fix: make the clamping of positions compile

---
 LitlRaster/LitlRaster/Box.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index ee18896..e5b8479 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -303,9 +303,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out(box.dimension());
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], T(box.front()[i]), T(box.back()[i])); // TODO transform
   }
   return out;
 }
@@ -318,7 +318,7 @@ template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Position<N>& shape) {
   Vector<T, N> out(shape.size());
   std::transform(position.begin(), position.end(), shape.begin(), out.begin(), [](auto p, auto s) {
-    return clamp(p, Index(0), s - 1);
+    return clamp(p, T(0), T(s - 1));
   });
   return out;
 }
-- 
2.43.0


From b90d7fec257c60827917c405f4ca11b5fda4544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 32/72] fix: allow unary operators on read-only boxes

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index e5b8479..2c76a76 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -262,14 +262,14 @@ public:
   /**
    * @brief Copy.
    */
-  Box<N> operator+() {
+  Box<N> operator+() const {
     return *this;
   }
 
   /**
    * @brief Invert the sign of each coordinate.
    */
-  Box<N> operator-() {
+  Box<N> operator-() const {
     return {-m_front, -m_back};
   }
 
-- 
2.43.0


From ee21a32da8caa6ddb531af6f29241972b6d86162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:21 +0000
Subject: [PATCH 33/72] fix: do not iterate over empty boxes

---
 LitlRaster/LitlRaster/BoxIterator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..11213a5 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -22,6 +22,11 @@ public:
    * @brief The beginning position.
    */
   static Position<N> beginPosition(const Box<N>& box) {
+    for (Index i = 0; i < box.dimension(); ++i) {
+      if (box.back()[i] < box.front()[i]) {
+        return endPosition(box); // Empty box
+      }
+    }
     return box.front();
   }
 
-- 
2.43.0


From 5fac7e78520b1e5711ce7b2a2e8deb01757e59d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 34/72] fix: return the previous position when
 post-incrementing a box iterator

---
 LitlRaster/LitlRaster/BoxIterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 11213a5..b664a61 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -63,8 +63,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From ac511e35d53c657aba20b7e40124b6758d8612a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 35/72] fix: own the region of box iterators such that copied
 subraster and ball iterators do not refer to their original

---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index b664a61..2703248 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -117,7 +117,7 @@ private:
   /**
    * @brief The screened region.
    */
-  const Box<N>& m_region;
+  Box<N> m_region;
 
   /**
    * @brief The current position.
-- 
2.43.0


From febbb17ccd535b52f6565e14b49b41debddffa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 36/72] fix: return the previous position when
 post-incrementing a ball iterator

---
 LitlRaster/LitlRaster/BallIterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..533acd1 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -42,8 +42,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   bool operator==(const Iterator& rhs) const {
-- 
2.43.0


From 6502c7d13ef5c3316283c98d5ecf9827ed812fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 37/72] fix: make ball iterators assignable and independent of
 the ball

---
 LitlRaster/LitlRaster/BallIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index 533acd1..fec7576 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -85,7 +85,7 @@ private:
   /**
    * @brief The ball center.
    */
-  const Position<N>& m_center;
+  Position<N> m_center;
 
   /**
    * @brief The bounding box.
-- 
2.43.0


From d3f0feb6ee3496f72f24d68262a10c6cb6fa82eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 38/72] fix: return the previous pixel when post-incrementing a
 subraster iterator

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..121275c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -48,8 +48,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From 441d360cbd4616b2d797b1c33b6c4c131bda2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 39/72] fix: compute the shape of balls of variable dimension,
 allow unary operators on read-only balls

---
 LitlRaster/LitlRaster/Ball.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..824ed4c 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -85,7 +85,7 @@ public:
    * @brief Compute the bounding box shape.
    */
   Position<N> shape() const {
-    return Position<N>(N).fill(length<0>());
+    return Position<N>(m_center).fill(length<0>());
   }
 
   /**
@@ -184,14 +184,14 @@ public:
   /**
    * @brief Copy.
    */
-  Ball<N, P> operator+() {
+  Ball<N, P> operator+() const {
     return *this;
   }
 
   /**
    * @brief Invert the sign of each center coordinate.
    */
-  Ball<N, P> operator-() {
+  Ball<N, P> operator-() const {
     return Ball<N, P>(m_radius, -m_center);
   }
 
-- 
2.43.0


From 9d2f4b40a8951393c21587688232ad19d8194521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:37 +0000
Subject: [PATCH 40/72] fix: count the positions of the ball instead of those
 of its bounding box

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 824ed4c..9ec35a8 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -99,7 +99,7 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    return std::distance(begin(*this), end(*this));
   }
 
   /**
-- 
2.43.0


From 05cc555c234ecf43ae9fcb927e9dfb58b5efd4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 41/72] fix: make writable subrasters iterable

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 121275c..cf34420 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -20,7 +20,8 @@ public:
   /**++
    * @brief Constructor.
    */
-  Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
+  template <typename TSubraster>
+  Iterator(TSubraster& subraster, const Position<Dimension>& position) :
       m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
@@ -116,7 +117,17 @@ private:
  * @brief Iterator to the beginning of a subraster.
  */
 template <typename TRaster, typename T>
-typename Subraster<TRaster, T>::Iterator begin(const Subraster<TRaster, T>& subraster) {
+typename Subraster<const TRaster, const T>::Iterator begin(const Subraster<TRaster, T>& subraster) {
+  return typename Subraster<const TRaster, const T>::Iterator(
+      subraster,
+      Box<TRaster::Dimension>::Iterator::beginPosition(subraster.region()));
+}
+
+/**
+ * @copydoc begin(const Subraster<TRaster,T>&)
+ */
+template <typename TRaster, typename T>
+typename Subraster<TRaster, T>::Iterator begin(Subraster<TRaster, T>& subraster) {
   return typename Subraster<TRaster, T>::Iterator(
       subraster,
       Box<TRaster::Dimension>::Iterator::beginPosition(subraster.region()));
@@ -127,7 +138,17 @@ typename Subraster<TRaster, T>::Iterator begin(const Subraster<TRaster, T>& subr
  * @brief Iterator to one past the end of a subraster.
  */
 template <typename TRaster, typename T>
-typename Subraster<TRaster, T>::Iterator end(const Subraster<TRaster, T>& subraster) {
+typename Subraster<const TRaster, const T>::Iterator end(const Subraster<TRaster, T>& subraster) {
+  return typename Subraster<const TRaster, const T>::Iterator(
+      subraster,
+      Box<TRaster::Dimension>::Iterator::endPosition(subraster.region()));
+}
+
+/**
+ * @copydoc end(const Subraster<TRaster,T>&)
+ */
+template <typename TRaster, typename T>
+typename Subraster<TRaster, T>::Iterator end(Subraster<TRaster, T>& subraster) {
   return typename Subraster<TRaster, T>::Iterator(
       subraster,
       Box<TRaster::Dimension>::Iterator::endPosition(subraster.region()));
-- 
2.43.0


From cd32156fc45b582e175338e1d15cf503f74289c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 42/72] fix: do not locate NaN positions inside the raster
 domain

---
 LitlRaster/LitlRaster/Raster.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index ec61f9a..991c12c 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -254,7 +254,7 @@ public:
   template <typename U>
   bool contains(const Vector<U, N>& position) const {
     for (std::size_t i = 0; i < position.size(); ++i) { // TODO iterators
-      if (position[i] < 0 || position[i] >= m_shape[i]) {
+      if (not(position[i] >= 0 && position[i] < m_shape[i])) { // Also rejects NaN
         return false;
       }
     }
-- 
2.43.0


From 56bdc874fabdb8103103c373d8279936416f0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 43/72] fix: compute the domain of rasters of variable
 dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..25aa9e6 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,9 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  auto front = m_shape;
+  front.fill(0);
+  return Box<N>::fromShape(std::move(front), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 60b5830904a4adfa4642d096c86958bc501ce352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:19 +0000
Subject: [PATCH 44/72] fix: compute the sections of rasters of variable
 dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 37 +++++++++++++++------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 25aa9e6..198cdcd 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -175,44 +175,47 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
+  auto f = shape();
+  f.fill(0);
+  auto s = shape();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  s[last] = back - front + 1;
+  return PtrRaster<const T, N> {s, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
+  auto f = shape();
+  f.fill(0);
+  auto s = shape();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  s[last] = back - front + 1;
+  return PtrRaster<T, N> {s, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
+  auto f = shape();
+  f.fill(0);
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position<N == -1 ? -1 : N - 1> reduced(last);
+  std::copy_n(shape().begin(), last, reduced.begin());
+  return PtrRaster<const T, N == -1 ? -1 : N - 1> {reduced, &operator[](f)};
   // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
+  auto f = shape();
+  f.fill(0);
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position<N == -1 ? -1 : N - 1> reduced(last);
+  std::copy_n(shape().begin(), last, reduced.begin());
+  return PtrRaster<T, N == -1 ? -1 : N - 1> {reduced, &operator[](f)};
   // FIXME duplication
 }
 
-- 
2.43.0


From 64994d6f8e2aece9c40a621ee65e212cbef4402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 45/72] fix: make rasterize() accept lvalue containers

---
 LitlRaster/LitlRaster/Raster.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index 991c12c..068c8d8 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -449,10 +449,10 @@ bool operator!=(const Raster<T, N, THolder>& lhs, const Raster<U, M, UHolder>& r
  * \endcode
  */
 template <typename TContainer, typename... Longs>
-Raster<typename TContainer::value_type, sizeof...(Longs), StdHolder<TContainer>>
-rasterize(TContainer&& data, Longs... shape) {
-  return Raster<typename TContainer::value_type, sizeof...(Longs), StdHolder<TContainer>> {
-      {shape...},
+Raster<typename std::decay_t<TContainer>::value_type, sizeof...(Longs) + 1, StdHolder<std::decay_t<TContainer>>>
+rasterize(TContainer&& data, Index length, Longs... shape) {
+  return Raster<typename std::decay_t<TContainer>::value_type, sizeof...(Longs) + 1, StdHolder<std::decay_t<TContainer>>> {
+      {length, shape...},
       std::forward<TContainer>(data)};
 }
 
-- 
2.43.0


From dc242e82af54fb1ae8fdc7a903f792db65999100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 46/72] fix: do not correlate out of the bounds of the data,
 kernel or sampling

---
 LitlTransforms/LitlTransforms/LineKernel.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..a608254 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -84,7 +84,9 @@ public:
     // FIXME only valid for "kernel croping" extrapolation
 
     // Set up iterators
+    const Index size = in.size();
     const auto step = in.step();
+    const auto forward = Index(this->size()) - m_origin - 1;
     DataSamples<const TIn>
         unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
     auto inIt = unitIn.begin();
@@ -95,19 +97,18 @@ public:
     auto i = in.front();
 
     // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
     }
 
     // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
     }
   }
 
-- 
2.43.0


From 8ba82a8f2b5f09f17ffe4f806876390575b35144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:29 +0000
Subject: [PATCH 47/72] fix: do not convolve out of the bounds of the data,
 kernel or sampling

---
 LitlTransforms/LitlTransforms/Convolution.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..6e9df0e 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -72,6 +72,7 @@ public:
       const { // FIXME only valid for CropOutOfBounds
 
     // Set iterators
+    const Index size = in.size();
     const auto step = in.step();
     DataSamples<const TIn>
         unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
@@ -85,20 +86,20 @@ public:
     printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
 
     // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
       printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
     }
 
     // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - m_forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
       printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
       printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
     }
   }
-- 
2.43.0


From e3a7e93fcc7983d52d1506ed7357b6c5a78b34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 48/72] fix: do not print while convolving or correlating

---
 LitlTransforms/LitlTransforms/Convolution.h   | 44 -------------------
 .../LitlTransforms/SeparableKernel.h          |  1 -
 2 files changed, 45 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 6e9df0e..81275e1 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -83,24 +83,19 @@ public:
     auto outIt = out.begin();
     Index i = in.front();
 
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
-
     // Backward-croped
     for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
     }
 
     // Central
     for (; i < size - m_forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
     }
   }
 
@@ -127,7 +122,6 @@ public:
     const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
-    printf("%li-%li:%li - %li-%li:%li\n", xFrom, xTo, xStep, yFrom, yTo, yStep);
 
     // Convolve along x-axis
     const Index xConvolvedWidth = (xTo - xFrom + xStep) / xStep;
@@ -137,67 +131,29 @@ public:
         &in[{0, yFrom}],
         in.template length<0>(),
         {xFrom, xTo, xStep});
-    printf("inSamples: %li-%li:%li:%li\n", inSamples.front(), inSamples.back(), inSamples.step(), inSamples.stride());
     DataSamples<typename TRasterOut::Value> xConvolvedSamples(
         xConvolved.data(),
         xConvolvedWidth,
         {0, Limits<Index>::inf()});
-    printf(
-        "xConvolvedSamples: %li-%li:%li:%li\n",
-        xConvolvedSamples.front(),
-        xConvolvedSamples.back(),
-        xConvolvedSamples.step(),
-        xConvolvedSamples.stride());
     for (Index y = yFrom; y <= yTo; ++y) {
-      printf(
-          "in: %li, xConvolved: %li\n",
-          std::distance(in.data(), inSamples.data()),
-          std::distance(xConvolved.data(), xConvolvedSamples.data()));
       sparseCorrelate1dTo(inSamples, xConvolvedSamples);
       inSamples += in.template length<0>();
       xConvolvedSamples += xConvolvedWidth;
     }
 
-    printf("xConvolved:\n%lix%li\n", xConvolvedWidth, xConvolvedHeight);
-    for (Index y = 0; y < xConvolvedHeight; ++y) {
-      for (Index x = 0; x < xConvolvedWidth; ++x) {
-        printf("%i ", xConvolved[{x, y}]);
-      }
-      printf("\n");
-    }
-
     // Convolve along y-axis
     DataSamples<typename TRasterOut::Value> ySamples(
         xConvolved.data(),
         xConvolvedHeight,
         {sampling.template along<1>().front - yFrom, sampling.template along<1>().back - yFrom, yStep},
         xConvolvedWidth);
-    printf("ySamples: %li-%li:%li:%li\n", ySamples.front(), ySamples.back(), ySamples.step(), ySamples.stride());
     DataSamples<typename TRasterOut::Value>
         outSamples(out.data(), out.template length<1>(), {0, Limits<Index>::inf()}, out.template length<0>());
-    printf(
-        "outSamples: %li-%li:%li:%li\n",
-        outSamples.front(),
-        outSamples.back(),
-        outSamples.step(),
-        outSamples.stride());
     for (Index x = xFrom; x <= xTo; x += xStep) {
-      printf(
-          "xConvolved: %li, out: %li\n",
-          std::distance(xConvolved.data(), ySamples.data()),
-          std::distance(out.data(), outSamples.data()));
       sparseCorrelate1dTo(ySamples, outSamples);
       ySamples += 1;
       outSamples += 1;
     }
-
-    printf("out:\n%lix%li\n", out.template length<0>(), out.template length<1>());
-    for (Index y = 0; y < out.template length<1>(); ++y) {
-      for (Index x = 0; x < out.template length<0>(); ++x) {
-        printf("%i ", out[{x, y}]);
-      }
-      printf("\n");
-    }
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..4f1ffad 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -201,7 +201,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From 969b20e134e7d99d2694db396e3b8e4a06f88644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 49/72] fix: make line kernels from values and a segment or
 from sequences

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index a608254..9bad3fd 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -128,7 +128,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -137,7 +137,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return LineKernel<T>(std::vector<T>(values.begin(), values.end()), origin);
 }
 
 /**
@@ -148,7 +148,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return LineKernel<T>(std::vector<T>(values.begin(), values.end()));
 }
 
 } // namespace Litl
-- 
2.43.0


From 17bf621fc7b520baea2af02a21bb3dcd6424a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 50/72] fix: do not qualify decltype(auto)

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 4f1ffad..1b2ce9f 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -125,14 +125,14 @@ public:
   /**
    * @brief Beginning iterator over `{Index, LineKernel}` pairs.
    */
-  const decltype(auto) begin() const {
+  auto begin() const {
     return m_kernels.begin();
   }
 
   /**
    * @brief End iterator over `{Index, LineKernel}` pairs.
    */
-  const decltype(auto) end() const {
+  auto end() const {
     return m_kernels.end();
   }
 
-- 
2.43.0


From 3278a7e08ba8ff15cd4b51e4c9311e9e3a785a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 51/72] fix: do not reverse the kernel when composing its
 components

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 1b2ce9f..8f24922 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -146,9 +146,13 @@ public:
       shape[k.first] = k.second.size();
       origin[k.first] = k.second.origin();
     }
-    auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    auto raster = Raster<Value, Dimension>(shape).fill(T(1));
+    for (const auto& p : raster.domain()) {
+      for (const auto& k : m_kernels) {
+        raster[p] *= k.second[p[k.first]];
+      }
+    }
+    return kernelize(raster, origin);
   }
 
   /**
-- 
2.43.0


From a707af87340e438c2d51f0317f5b4ba4424d025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 52/72] fix: make the window of separable kernels compile

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 8f24922..2fe7cd9 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -101,18 +101,14 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      auto i = k.first;
-      const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
-      }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
-      }
+      const auto w = k.second.window();
+      front[k.first] = w.front();
+      back[k.first] = w.back();
     }
-    return box;
+    return Box<Dimension>(front, back);
   }
 
   /**
-- 
2.43.0


From 74427528e0986e96c963eb56601bb04ede2bb2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 53/72] fix: return the line kernel along given axis

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2fe7cd9..35bbba7 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -114,7 +114,7 @@ public:
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return m_kernels.at(axis);
   }
 
-- 
2.43.0


From 635172ccf957225a6b6fa06ef9645d6a5b18bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 54/72] fix: do not hide the copy constructor of separable
 kernels

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 35bbba7..2e5cc55 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -41,7 +41,9 @@ public:
   /**
    * @brief Map-based constructor.
    */
-  template <typename... Ts>
+  template <
+      typename... Ts,
+      typename std::enable_if_t<std::is_constructible<std::map<Index, LineKernel<T>>, Ts&&...>::value>* = nullptr>
   explicit SeparableKernel(Ts&&... args) : m_kernels(std::forward<Ts>(args)...) {}
 
   /**
-- 
2.43.0


From 1cc1c6125c353670f54b57aa005a4bf0f8ef3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 55/72] fix: average the two central values in the median of an
 even number of values

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..4536599 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -87,8 +87,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*std::max_element(b, n) + *n) * .5;
   }
 
 private:
-- 
2.43.0


From 03d998299187af5c386f4f46ce1ea9adf14e55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 56/72] fix: do not swap the weights of the linear
 interpolation

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..a0e658a 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
-- 
2.43.0


From 33cac234d7cda66d8a2aa222953abda29d14b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 57/72] fix: round negative coordinates to the nearest integers

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index a0e658a..377ab11 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From 57801953670e1f6e0c9e87d6612f40bb68d5546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 58/72] fix: make structuring elements compile

---
 LitlTransforms/LitlTransforms/StructuringElement.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 19966f3..4d1112b 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -78,8 +78,9 @@ public:
   }
 
 private:
+  template <typename TIn>
   void loadNeighbors(const TIn& in, const Position<N>& p) {
-    auto it = neighbors.begin();
+    auto it = m_neighbors.begin();
     for (const auto& q : m_window + p) {
       *it++ = in[q];
     }
@@ -94,8 +95,7 @@ private:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return (*std::max_element(b, n) + *n) * .5;
   }
 
   T neighborsMin() {
-- 
2.43.0


From 1779de9d035e15cb6ef98a72ca0dca3d4ce77b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 59/72] fix: correlate all rows, in all dimensions, with the
 right neighbors

---
 LitlTransforms/LitlTransforms/Kernel.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..6049be2 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -99,27 +99,30 @@ private:
     // Compute constants
     auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
 
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    // Compute the offsets of the window rows in the input
+    auto kRows = m_window;
+    kRows.project();
+    std::vector<Index> offsets(kRows.size());
+    std::transform(begin(kRows), end(kRows), offsets.begin(), [&](const auto& q) {
+      return in.index(q - m_window.front());
+    });
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto inIt = in.data() + in.index(p + m_window.front());
+      auto outIt = &out[p];
+      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        auto kIt = m_values.data();
+        for (const auto& o : offsets) {
+          sum = std::inner_product(kIt, kIt + kWidth, inIt + o, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
-- 
2.43.0


From 547b966ee895718eecadc676eb806a2bc993ee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 60/72] fix: correlate rasters smaller than the kernel, and
 kernels which do not contain their origin

---
 LitlTransforms/LitlTransforms/Kernel.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 6049be2..a6d4cd1 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -77,8 +77,20 @@ public:
    */
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
-    const auto inner = in.domain() - m_window;
-    const auto outers = inner.surround(m_window);
+    const auto domain = in.domain();
+    const auto valid = domain - m_window; // Where no extrapolation is needed
+    auto front = domain.front();
+    auto back = domain.back();
+    for (Index i = 0; i < domain.dimension(); ++i) {
+      front[i] = std::max(front[i], valid.front()[i]);
+      back[i] = std::min(back[i], valid.back()[i]);
+    }
+    const Box<N> inner(front, back);
+    if (inner.size() == 0) {
+      correlateWithExtrapolation(in, domain, out);
+      return;
+    }
+    const auto outers = inner.surround(Box<N>(domain.front() - front, domain.back() - back));
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
       correlateWithExtrapolation(in, o, out);
-- 
2.43.0


From 4c6737da618eb781a47317fe4cbf7564f4625f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:31 +0000
Subject: [PATCH 61/72] fix: correlate with line kernels which do not contain
 their origin

---
 LitlTransforms/LitlTransforms/Convolution.h | 6 ++++--
 LitlTransforms/LitlTransforms/LineKernel.h  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 81275e1..3b65319 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -85,7 +85,8 @@ public:
 
     // Backward-croped
     for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
+      const auto to = std::max(-i, std::min(m_forward + 1, size - i));
+      *outIt = std::inner_product(originData() - i, originData() + to, inMinIt, m_bias);
     }
 
     // Central
@@ -95,7 +96,8 @@ public:
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
+      const auto to = std::max(-m_backward, size - i);
+      *outIt = std::inner_product(this->begin(), originData() + to, inIt, m_bias);
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 9bad3fd..2315a3d 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -98,7 +98,8 @@ public:
 
     // Backward-croped
     for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
+      const auto to = std::max(-i, std::min(forward + 1, size - i));
+      *outIt = std::inner_product(originData() - i, originData() + to, inMinIt, m_bias);
     }
 
     // Central
@@ -108,7 +109,8 @@ public:
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
+      const auto to = std::max(-m_origin, size - i);
+      *outIt = std::inner_product(this->begin(), originData() + to, inIt, m_bias);
     }
   }
 
-- 
2.43.0


From f36a0efe0dd4d210492b9ca465cecc38e7c0a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:41 +0000
Subject: [PATCH 62/72] fix: do not read the size of moved kernel values

---
 LitlTransforms/LitlTransforms/LineKernel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 2315a3d..b8ac36b 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -40,7 +40,8 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit LineKernel(std::vector<T> values) : LineKernel(std::move(values), values.size() / 2) {}
+  explicit LineKernel(std::vector<T> values) :
+      Container(std::move(values)), m_origin(this->size() / 2), m_bias() {}
 
   /**
    * @brief Get the window.
-- 
2.43.0


From 5bc070f8d391ec1edf9d97c236f291342cbe1648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:36 +0000
Subject: [PATCH 63/72] fix: filter the whole output instead of all the
 positions by default

---
 LitlTransforms/LitlTransforms/MedianFilter.h  |  7 ++++++-
 .../LitlTransforms/StructuringElement.h       | 21 ++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 4536599..2484a95 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -60,7 +60,7 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
@@ -72,6 +72,11 @@ public:
     }
   }
 
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out) {
+    applyTo(in, out, out.domain());
+  }
+
   /**
    * @brief Compute the median value of an iterable.
    * @warning
diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 4d1112b..52b2cf3 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -54,7 +54,7 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void medianTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void medianTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMedian();
@@ -62,7 +62,12 @@ public:
   }
 
   template <typename TIn, typename TOut>
-  void erodeTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void medianTo(const TIn& in, TOut& out) {
+    medianTo(in, out, out.domain());
+  }
+
+  template <typename TIn, typename TOut>
+  void erodeTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMin();
@@ -70,13 +75,23 @@ public:
   }
 
   template <typename TIn, typename TOut>
-  void dilateTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void erodeTo(const TIn& in, TOut& out) {
+    erodeTo(in, out, out.domain());
+  }
+
+  template <typename TIn, typename TOut>
+  void dilateTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMax();
     }
   }
 
+  template <typename TIn, typename TOut>
+  void dilateTo(const TIn& in, TOut& out) {
+    dilateTo(in, out, out.domain());
+  }
+
 private:
   template <typename TIn>
   void loadNeighbors(const TIn& in, const Position<N>& p) {
-- 
2.43.0


From 006df3652bef3e5180b7419e2ff01d1003ae1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:50 +0000
Subject: [PATCH 64/72] fix: filter rasters of read-only values

---
 LitlTransforms/LitlTransforms/MedianFilter.h       | 6 +++---
 LitlTransforms/LitlTransforms/StructuringElement.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 2484a95..87ccb2c 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -47,8 +47,8 @@ public:
    * @brief Apply the filter.
    */
   template <typename TIn>
-  Raster<typename TIn::Value, TIn::Dimension> apply(const TIn& in) {
-    Raster<typename TIn::Value, TIn::Dimension> out(in.shape());
+  Raster<std::decay_t<typename TIn::Value>, TIn::Dimension> apply(const TIn& in) {
+    Raster<std::decay_t<typename TIn::Value>, TIn::Dimension> out(in.shape());
     applyTo(in, out, out.domain());
     return out;
   }
@@ -61,7 +61,7 @@ public:
    */
   template <typename TIn, typename TOut>
   void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
-    std::vector<typename TIn::Value> neighbors(m_window.size());
+    std::vector<std::decay_t<typename TIn::Value>> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
       for (const auto& q : m_window + p) {
diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 52b2cf3..980411a 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -41,8 +41,8 @@ public:
    * @brief Apply the filter.
    */
   template <typename TIn>
-  Raster<typename TIn::Value, TIn::Dimension> median(const TIn& in) {
-    Raster<typename TIn::Value, TIn::Dimension> out(in.shape());
+  Raster<std::decay_t<typename TIn::Value>, TIn::Dimension> median(const TIn& in) {
+    Raster<std::decay_t<typename TIn::Value>, TIn::Dimension> out(in.shape());
     medianTo(in, out, out.domain());
     return out;
   }
-- 
2.43.0


From 9f4f650f3d4f256a7b266c5798b663b56b08028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:53 +0000
Subject: [PATCH 65/72] fix: destroy the plan which is replaced when moving
 another one into it

---
 LitlTransforms/LitlTransforms/DftPlan.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftPlan.h b/LitlTransforms/LitlTransforms/DftPlan.h
index 9ade097..fcf14c6 100644
--- a/LitlTransforms/LitlTransforms/DftPlan.h
+++ b/LitlTransforms/LitlTransforms/DftPlan.h
@@ -109,7 +109,25 @@ public:
       m_plan {FftwAllocator::createPlan<Transform>(m_in, m_out)} {}
 
   LITL_DEFAULT_COPYABLE(DftPlan)
-  LITL_DEFAULT_MOVABLE(DftPlan)
+
+  /**
+   * @brief Move constructor.
+   */
+  DftPlan(DftPlan&&) = default;
+
+  /**
+   * @brief Move assignment operator.
+   */
+  DftPlan& operator=(DftPlan&& other) {
+    if (this != &other) {
+      FftwAllocator::destroyPlan(m_plan);
+      m_shape = std::move(other.m_shape);
+      m_in = std::move(other.m_in);
+      m_out = std::move(other.m_out);
+      m_plan = std::move(other.m_plan);
+    }
+    return *this;
+  }
 
   /**
    * @brief Destructor.
-- 
2.43.0


From d212fe8907168b20f12eabe276a876086bfb2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 66/72] fix: read and write FITS images with the type of the
 values

---
 LitlIo/LitlIo/Fits.h | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..6336f94 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -9,9 +9,46 @@
 
 #include <fitsio.h>
 #include <string>
+#include <type_traits>
 
 namespace Litl {
 
+/// @cond
+namespace Internal {
+
+/**
+ * @brief The CFITSIO codes of the pixels of an image file (BITPIX) and of the data in memory.
+ */
+struct FitsTypeCode {
+  int image;
+  int data;
+};
+
+/**
+ * @brief Get the CFITSIO codes of a given value type.
+ */
+template <typename T>
+constexpr FitsTypeCode fitsTypeCode() {
+  static_assert(std::is_arithmetic<T>::value && sizeof(T) <= 8, "FITS images cannot store values of this type");
+  if (std::is_floating_point<T>::value) {
+    return sizeof(T) == 4 ? FitsTypeCode {FLOAT_IMG, TFLOAT} : FitsTypeCode {DOUBLE_IMG, TDOUBLE};
+  }
+  const bool sign = std::is_signed<T>::value;
+  switch (sizeof(T)) {
+    case 1:
+      return sign ? FitsTypeCode {SBYTE_IMG, TSBYTE} : FitsTypeCode {BYTE_IMG, TBYTE};
+    case 2:
+      return sign ? FitsTypeCode {SHORT_IMG, TSHORT} : FitsTypeCode {USHORT_IMG, TUSHORT};
+    case 4:
+      return sign ? FitsTypeCode {LONG_IMG, TINT} : FitsTypeCode {ULONG_IMG, TUINT};
+    default:
+      return sign ? FitsTypeCode {LONGLONG_IMG, TLONGLONG} : FitsTypeCode {ULONGLONG_IMG, TULONGLONG};
+  }
+}
+
+} // namespace Internal
+/// @endcond
+
 class Fits {
 
 public:
@@ -27,7 +64,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::fitsTypeCode<typename TRaster::Value>().data,
         1,
         out.size(),
         nullptr,
@@ -46,13 +83,13 @@ public:
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        Internal::fitsTypeCode<typename TRaster::Value>().image,
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::fitsTypeCode<typename TRaster::Value>().data,
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From 227f24d5f2e0b07a85c4118e2b15e83b2a4a68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 67/72] fix: throw and close the file when FITS operations fail

---
 LitlIo/LitlIo/Fits.h | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index 6336f94..dda980e 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -59,8 +59,14 @@ public:
     int naxis = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
     fits_get_img_dim(m_fptr, &naxis, &m_status);
+    mayThrow("Cannot open image");
+    if (TRaster::Dimension != -1 && naxis != TRaster::Dimension) {
+      m_status = BAD_DIMEN;
+      mayThrow("Cannot read image as a raster of dimension " + std::to_string(TRaster::Dimension));
+    }
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    mayThrow("Cannot read image shape");
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -71,15 +77,17 @@ public:
         out.data(),
         nullptr,
         &m_status);
+    mayThrow("Cannot read image");
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow("Cannot close file");
     return out;
   }
 
   template <typename TRaster>
   void write(TRaster raster) { // FIXME const
     fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
+    mayThrow("Cannot create file");
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
@@ -94,12 +102,30 @@ public:
         raster.size(),
         raster.data(),
         &m_status);
+    mayThrow("Cannot write image");
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow("Cannot close file");
   }
 
 private:
+  /**
+   * @brief Close the file and throw if the last operations failed.
+   */
+  void mayThrow(const std::string& message) {
+    if (m_status == 0) {
+      return;
+    }
+    const int status = m_status;
+    if (m_fptr) {
+      m_status = 0;
+      fits_close_file(m_fptr, &m_status);
+      m_fptr = nullptr;
+    }
+    m_status = 0;
+    throw Exception("FITS error", message + ": " + m_filename + " (CFITSIO status " + std::to_string(status) + ")");
+  }
+
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From a7913607c20d740fcf565354b305b95081e25d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:28 +0000
Subject: [PATCH 68/72] fix: make the steps with a tuple of one prerequisite
 compile

---
 LitlRun/LitlRun/StepperPipeline.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/StepperPipeline.h b/LitlRun/LitlRun/StepperPipeline.h
index d9b2582..2344dd3 100644
--- a/LitlRun/LitlRun/StepperPipeline.h
+++ b/LitlRun/LitlRun/StepperPipeline.h
@@ -89,7 +89,7 @@ public:
    */
   template <typename S>
   std::enable_if_t<prerequisiteCardinality<S>() == 1, typename S::Return> get() {
-    get<typename S::Prerequisite>();
+    getSingle(static_cast<typename S::Prerequisite*>(nullptr));
     return evaluateGet<S>();
   }
 
@@ -141,6 +141,22 @@ protected:
   }
 
 private:
+  /**
+   * @brief Call `get()` on a single step.
+   */
+  template <typename S>
+  void getSingle(S*) {
+    get<S>();
+  }
+
+  /**
+   * @brief Call `get()` on the only element of a tuple.
+   */
+  template <typename S>
+  void getSingle(std::tuple<S>*) {
+    get<S>();
+  }
+
   /**
    * @brief Call `get()` on each element of a tuple.
    */
-- 
2.43.0


From 0dd296635303c138457ba085ab430bf6a30db1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:29 +0000
Subject: [PATCH 69/72] fix: compute the standard deviation of the increments
 without cancellation

---
 LitlRun/LitlRun/Chronometer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..c0aaf99 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -5,10 +5,10 @@
 #ifndef _LITLRUN_CHRONOMETER_H
 #define _LITLRUN_CHRONOMETER_H
 
-#include <algorithm> // accumulate, min_element, max_element
+#include <algorithm> // min_element, max_element
 #include <chrono>
 #include <cmath> // sqrt
-#include <numeric> // inner_product
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [=](double sum, double e) {
+      return sum + (e - m) * (e - m);
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From d66b22f5ccfd76c8deb5c8e5daeba65475960f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:24 +0000
Subject: [PATCH 70/72] fix: declare the options of copies in the copies

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..ef30d1d 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
   }
 
   /**
@@ -182,7 +182,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 68b47444a9a711d205673f51d091a4fab1956b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:22 +0000
Subject: [PATCH 71/72] fix: forget the previous command line when parsing
 another one

---
 LitlRun/LitlRun/ProgramOptions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index ef30d1d..d0cba19 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -123,10 +123,12 @@ public:
    * @brief Parse a command line (`main`-like).
    */
   void parse(int argc, const char* const argv[]) {
+    boost::program_options::variables_map variables; // A filled map would keep its values
     boost::program_options::store(
         boost::program_options::command_line_parser(argc, argv).options(m_named).positional(m_positional).run(),
-        m_variables);
-    boost::program_options::notify(m_variables);
+        variables);
+    boost::program_options::notify(variables);
+    m_variables = variables;
   }
 
   /**
-- 
2.43.0


From 5cb9e2dc2c305675e0201eff0ec881ef1dea58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:09 +0000
Subject: [PATCH 72/72] fix: make the alignment cases well-formed

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 20e6c70..76a73c7 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -261,7 +261,7 @@ private:
   static std::size_t alignAs(const void* data, std::size_t align) {
     constexpr std::size_t simd = 64; // 64 for AVX512; TODO detect?
     switch (align) {
-      case -1:
+      case std::size_t(-1):
         return simd;
       case 0:
         return data ? 1 : simd;
-- 
2.43.0

