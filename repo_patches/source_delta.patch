From 934b9018a8afe5d9e66dd934ca87d726cf3506a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 01/32] fix: keep the denominator of a RationalNum positive

A negative denominator (given, or produced by dividing by a negative
value) inverted every ordering comparison.
---
 include/bwsl/RationalNum.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..0d8780b 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -199,6 +199,12 @@ RationalNum<T>::Simplify()
   auto g = get_gcd(num_, den_);
   num_ = num_ / g;
   den_ = den_ / g;
+
+  // the sign is always carried by the numerator
+  if (den_ < 0) {
+    num_ = -num_;
+    den_ = -den_;
+  }
 }
 
 template<class G>
-- 
2.43.0


From 03c60777fff7b56e26e7ae72ab59794962a1aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 02/32] fix: compare RationalNum with integers exactly

The integer division truncated the rational, so 3//2 == 1 held.
---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 0d8780b..a2fabe7 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -218,14 +218,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From 726ba93f1789d0e8d0a70742c34331b1c1043035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 03/32] fix: read RationalNum in canonical form and refuse zero
 denominators

The parsed numbers were stored as they were (2//4, 1//-2, 1//0), and the
target was modified by texts that were then refused.
---
 include/bwsl/RationalNum.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index a2fabe7..c31763d 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -171,7 +171,9 @@ inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
   auto sep = char{};
-  in >> rhs.num_;
+  auto num = T{ 0 };
+  auto den = T{ 0 };
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +181,14 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+
+  if (den == 0) {
+    in.setstate(std::ios_base::failbit);
+  }
+  if (in) {
+    rhs = RationalNum<T>(num, den);
+  }
 
   return in;
 }
-- 
2.43.0


From 594a57a4a69900a639113559c82cd812c922763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 04/32] fix: make ToString(RationalNum) compile

fmt::format cannot format a type that only has a stream operator.
---
 include/bwsl/RationalNum.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index c31763d..3b6be86 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -19,9 +19,6 @@
 #include <bwsl/MathUtils.hpp>
 #include <bwsl/RelationalUtils.hpp>
 
-// fmt
-#include <fmt/format.h>
-
 // std
 #include <iostream>
 #include <sstream>
@@ -347,7 +344,9 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  auto oss = std::ostringstream{};
+  oss << rhs;
+  return oss.str();
 }
 
 } // namespace bwsl
-- 
2.43.0


From 2b96e7807003f66b83e87a3cff91003b3c974093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 05/32] fix: do not return a dangling message from the enum
 conversion exception

---
 include/bwsl/EnumString.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..6e728ba 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,18 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_("Unknown correspondance of " + value +                        \
+                 " for enum " BOOST_PP_STRINGIZE(name))                        \
     {                                                                          \
     }                                                                          \
                                                                                \
     const char* what() const throw()                                           \
     {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
+      return message_.c_str();                                                 \
     }                                                                          \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_;                                                      \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From e1e2627b8e25b713f15c9e9b624701e298c4e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 06/32] fix: make the interpolation search usable and keep it
 inside the range

The unqualified call was ambiguous for standard iterators and recursed
forever for pointers, the interpolated position could be one past the last
element, and runs of elements equal to the value were not skipped.
---
 include/bwsl/MathUtils.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..cf8fb90 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <numeric>
 #include <random>
@@ -356,6 +357,10 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
   auto count = std::distance(first, last);
   auto it = first;
   auto to = it;
+
+  if (count == 0) {
+    return last;
+  }
   std::advance(to, count - 1);
 
   while (count > 10000) {
@@ -364,9 +369,6 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     if (value < itval) {
       return it;
     }
-    if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
-    }
 
     // check if the value is outside the upper bound of the search interval
     if (!(value < *to)) { // value >= to
@@ -374,7 +376,14 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
 
     // compute the new position interpolating the position of the point
-    const auto np = std::round((value - itval) / (*to - itval) * count);
+    // (halving the window when that is not possible)
+    const auto ratio =
+      (static_cast<double>(value) - itval) / (static_cast<double>(*to) - itval);
+    auto np = count / 2;
+    if (ratio > 0.0 && ratio <= 1.0) {
+      np = static_cast<decltype(count)>(
+        std::round(ratio * std::distance(it, to)));
+    }
     auto nt = it;
     std::advance(nt, np);
 
@@ -385,7 +394,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From 572b97eb1a9494a9a27b57d10abc40aa4ef2e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 07/32] fix: multiply by the inverse matrix in
 Bravais::GetInverseVector

---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From 503ebafb8b58baaacd6f20b7c944a66f44fc8d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 08/32] fix: do not truncate half the grid size to int in
 GetJump

---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..cd9d779 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From 90397b67678787a2f7668a6d408cdf3cdbbe13de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 09/32] fix: leave coordinates alone in
 Lattice::EnforceBoundaries when open

The lattice wrapped around boundaries that are open, unlike its grid.
---
 include/bwsl/Lattice.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..35fac17 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -199,15 +199,7 @@ inline Lattice::Lattice(Bravais const& bravais,
 inline void
 Lattice::EnforceBoundaries(coords_t& coords) const
 {
-  for (auto i = 0UL; i < GetDim(); i++) {
-    auto s = GetSize()[i];
-    while (coords[i] < 0) {
-      coords[i] += s;
-    }
-    while (coords[i] >= static_cast<long>(s)) {
-      coords[i] -= s;
-    }
-  }
+  HyperCubicGrid::EnforceBoundaries(coords);
 }
 
 inline auto
-- 
2.43.0


From b3d861e58da5214d75b46defe83cd6205c4911ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 10/32] fix: compute distances between any two sites of an open
 lattice

Pairs whose difference is negative in some direction were mapped to a
wrong or out-of-bounds site.
---
 include/bwsl/Lattice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 35fac17..4c99223 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -206,6 +206,9 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  if (HasOpenBoundaries()) {
+    return sqrt(sum_squared<realvec_t, double>(GetVector(a, b)));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -214,6 +217,11 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without periodic images not all pairs can be mapped to (0, s)
+  if (HasOpenBoundaries()) {
+    auto v = position_[b];
+    return subtract_into(v, position_[a]);
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From 6e8bf9d5c3b9549ada6e2c915c9d31db87c30d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 11/32] fix: do not read undefined momenta when saving those of
 an open lattice

---
 include/bwsl/Lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 4c99223..31e9c9e 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -481,7 +481,8 @@ Lattice::SaveMomenta(std::string const& fname) const
   }
   fmt::print(out, "\n");
 
-  for (auto i = 0UL; i < GetNumSites(); i++) {
+  // there are no momenta with open boundary conditions
+  for (auto i = 0UL; i < momenta_.size(); i++) {
     fmt::print(out, "{}", i);
     for (auto const& k : momenta_[i]) {
       fmt::print(out, ",{}", k);
-- 
2.43.0


From b9af769c45e5357610a92883040377f456c7bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 12/32] fix: scale momenta along the reciprocal vectors, not
 the axes

On non-orthogonal lattices with unequal sizes the momenta were not
compatible with the periodic boundaries.
---
 include/bwsl/Lattice.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 31e9c9e..25d993c 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -373,9 +373,16 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
     }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+    // each direction has its own period
+    auto kappa = realvec_t(GetDim(), 0.0);
+    for (auto k = 0UL; k < ci.size(); k++) {
+      auto ck = coords_t(GetDim(), 0L);
+      ck[k] = ci[k];
+      auto bk = bravais.GetReciprocalSpace(ck);
+      for (auto& x : bk) {
+        x /= static_cast<double>(GetSize()[k]);
+      }
+      sum_into(kappa, bk);
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From 67371ea2bc0e8e89ceb39ff02e7938f8d2a590ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 13/32] fix: search all the periodic images that can be closest

On non-orthogonal lattices with very unequal sizes the closest image is
beyond the first shell, so distances were too long.
---
 include/bwsl/Lattice.hpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 25d993c..5c1a091 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -297,8 +297,15 @@ Lattice::ComputeVectors(Bravais const& bravais) const
   -> std::vector<Lattice::realvec_t>
 {
   auto p = std::vector<realvec_t>(GetNumSites(), realvec_t(GetDim(), 0.0));
-  const auto imgsize = gridsize_t(GetDim(), 3);
-  const auto nimg = accumulate_product(imgsize);
+
+  // norms of the rows of the inverse lattice matrix: a vector of length d
+  // spans at most d * inorm[m] cells in direction m
+  auto inorm = realvec_t{};
+  for (auto m = 0UL; m < GetDim(); m++) {
+    auto em = coords_t(GetDim(), 0L);
+    em[m] = 1L;
+    inorm.push_back(l2norm(bravais.GetReciprocalSpace(em)) / (2 * M_PI));
+  }
 
   const auto c0 = GetCoordinates(0UL);
   for (auto site = 0UL; site < GetNumSites(); site++) {
@@ -307,14 +314,27 @@ Lattice::ComputeVectors(Bravais const& bravais) const
     // minimum distance found
     auto [mindist, minvec] = bravais.GetDistanceVector(c0, cs);
 
-    // search for the minimum distance across the first shell of
-    // periodic images if we are with closed boundary condition
+    // search for the minimum distance across the periodic images that can
+    // be closer than this one if we are with closed boundary condition
     if (HasClosedBoundaries()) {
+      auto first = coords_t(GetDim(), 0L);
+      auto imgsize = gridsize_t(GetDim(), 0UL);
+      for (auto m = 0UL; m < GetDim(); m++) {
+        const auto s = static_cast<double>(GetSize()[m]);
+        const auto reach = mindist * inorm[m] * (1.0 + 1e-9);
+        first[m] =
+          std::min(-1L, static_cast<long>(std::ceil((-reach - cs[m]) / s)));
+        imgsize[m] = static_cast<size_t>(
+          std::max(1L, static_cast<long>(std::floor((reach - cs[m]) / s))) -
+          first[m] + 1L);
+      }
+      const auto nimg = accumulate_product(imgsize);
+
       for (auto k = 0UL; k < nimg; k++) {
         auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
         auto csm = coords_t(cs);
         for (auto m = 0UL; m < GetDim(); m++) {
-          csm[m] += (img[m] - 1) * GetSize()[m];
+          csm[m] += (img[m] + first[m]) * GetSize()[m];
         }
         auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
 
-- 
2.43.0


From ff0b0b8c335adc68356b55dbc2a5b137b94359fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 14/32] fix: define the friend comparisons of LinSpace

The declared friends were not templates and never defined, so iterating
a LinSpace did not link.
---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..0a96f03 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  };
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From a87a97f823699c4c8c3d2f3107eb8b53f924d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 15/32] fix: normalise all the bins of a histogram by the same
 value

The reference bin became one when it was reached, and the bins after it
were not normalised.
---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..02afb51 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  const auto norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From 1b5dde22623bc8c12d28d1c3482627c39147e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 16/32] fix: do not dereference the end when printing an empty
 ObservableGroup

---
 include/bwsl/ObservableGroup.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/include/bwsl/ObservableGroup.hpp b/include/bwsl/ObservableGroup.hpp
index 5bee924..5f9d9fd 100644
--- a/include/bwsl/ObservableGroup.hpp
+++ b/include/bwsl/ObservableGroup.hpp
@@ -119,12 +119,10 @@ ObservableGroup<Index_t>::PrintHeaders() const
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::trunc);
 
-  auto it = accumulator_.begin();
-  fmt::print(out, "{}", it->first);
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{}", it->first);
+  for (auto const& acc : accumulator_) {
+    fmt::print(out, "{},", acc.first);
   }
-  fmt::print(out, ",Count");
+  fmt::print(out, "Count");
   fmt::print(out, "\n");
 }
 
@@ -133,15 +131,13 @@ inline void
 ObservableGroup<Index_t>::PrintAndReset(size_t precision)
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::app);
-  auto it = accumulator_.begin();
-  auto count = it->second.Count();
-  fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
-  it->second.Reset();
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{:.{}e}", it->second.Mean(), precision);
-    it->second.Reset();
+  auto count =
+    accumulator_.empty() ? 0UL : accumulator_.begin()->second.Count();
+  for (auto& acc : accumulator_) {
+    fmt::print(out, "{:.{}e},", acc.second.Mean(), precision);
+    acc.second.Reset();
   }
-  fmt::print(out, ",{}", count);
+  fmt::print(out, "{}", count);
   fmt::print(out, "\n");
 }
 
-- 
2.43.0


From 03edb91a0cfc50129a845978770853c10dd558f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 17/32] fix: compute the variance of NaiveInteger correctly

The sum of squares was not multiplied by the number of values, so most
variances were negative.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..19ad2ea 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,7 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return ScaledVariance() / ccount;
 }
 
 inline auto
@@ -139,7 +139,9 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  auto n = static_cast<long>(count_);
+
+  return static_cast<double>(n * sum2_ - sum_ * sum_) / count_;
 }
 
 inline auto
-- 
2.43.0


From 743cd779b1d97b1dba0f6dc0afb2710de3942997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 18/32] fix: check NaiveInteger overflows against the types
 actually used

With BWSL_ACCUMULATORS_CHECKS every addition threw.
---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index 19ad2ea..48d5a64 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -106,10 +106,13 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  constexpr auto maxlong = std::numeric_limits<long>::max();
+  constexpr auto minlong = std::numeric_limits<long>::min();
+  if (x > 0 ? sum_ > maxlong - x : sum_ < minlong - x) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  if (x != 0 &&
+      (x < -maxlong || std::abs(x) > (maxlong - sum2_) / std::abs(x))) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From 7f58ab82f19c520c8c9aa56db7d6185ad5d416c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 19/32] fix: make compare_files inline

Including the header in two translation units did not link.
---
 include/bwsl/FileUtils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..f1a0681 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -15,7 +15,9 @@
 #pragma once
 
 // std
+#include <algorithm>
 #include <fstream>
+#include <iterator>
 #include <string>
 
 namespace bwsl {
@@ -25,7 +27,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0


From ede6f5ba3f706472339db7b39413ec33ef75a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 20/32] fix: define the strict comparisons of Approx

They were declared but never defined, so using them did not link.
---
 include/bwsl/Approx.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..dc09b26 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -76,9 +76,9 @@ private:
   friend auto operator<=(Approx const& lhs, double rhs) -> bool;
   friend auto operator>=(double lhs, Approx const& rhs) -> bool;
   friend auto operator>=(Approx const& lhs, double rhs) -> bool;
-  friend auto operator<(Approx lhs, double const& rhs) -> bool;
+  friend auto operator<(Approx const& lhs, double rhs) -> bool;
   friend auto operator<(double lhs, Approx const& rhs) -> bool;
-  friend auto operator>(Approx lhs, double const& rhs) -> bool;
+  friend auto operator>(Approx const& lhs, double rhs) -> bool;
   friend auto operator>(double lhs, Approx const& rhs) -> bool;
 }; // class Approx
 
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return !(lhs >= rhs);
+}
+
+inline auto
+operator<(Approx const& lhs, double rhs) -> bool
+{
+  return !(lhs >= rhs);
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return !(lhs <= rhs);
+}
+
+inline auto
+operator>(Approx const& lhs, double rhs) -> bool
+{
+  return !(lhs <= rhs);
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From d101b51410c1ac88fd568b1a5cfb83635a97232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 21/32] fix: do not truncate the seed of dumpmt to int

---
 applications/dumpmt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/dumpmt.cpp b/applications/dumpmt.cpp
index 3a38199..4f59985 100644
--- a/applications/dumpmt.cpp
+++ b/applications/dumpmt.cpp
@@ -14,6 +14,7 @@
 //===---------------------------------------------------------------------===//
 
 // std
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <random>
@@ -25,7 +26,7 @@ main (int ac, char **av)
     return EXIT_FAILURE;
   }
 
-  auto seed = static_cast<unsigned long>(atoi(av[1]));
+  auto seed = std::strtoul(av[1], nullptr, 10);
 
   auto rng = std::mt19937_64{seed};
 
-- 
2.43.0


From 80c4f2c35f8e8da2a15ef4d3603dbffabf2d2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:50 +0000
Subject: [PATCH 22/32] fix: search the farther images only from the closest
 adjacent one

The search over all images that can be closest started from the plain
displacement and took very long for very unequal sizes.
---
 include/bwsl/Lattice.hpp | 50 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 5c1a091..80b0109 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -314,33 +314,35 @@ Lattice::ComputeVectors(Bravais const& bravais) const
     // minimum distance found
     auto [mindist, minvec] = bravais.GetDistanceVector(c0, cs);
 
-    // search for the minimum distance across the periodic images that can
-    // be closer than this one if we are with closed boundary condition
+    // search for the minimum distance across the first shell of
+    // periodic images if we are with closed boundary condition, then across
+    // all the images that can still be closer
     if (HasClosedBoundaries()) {
-      auto first = coords_t(GetDim(), 0L);
-      auto imgsize = gridsize_t(GetDim(), 0UL);
-      for (auto m = 0UL; m < GetDim(); m++) {
-        const auto s = static_cast<double>(GetSize()[m]);
-        const auto reach = mindist * inorm[m] * (1.0 + 1e-9);
-        first[m] =
-          std::min(-1L, static_cast<long>(std::ceil((-reach - cs[m]) / s)));
-        imgsize[m] = static_cast<size_t>(
-          std::max(1L, static_cast<long>(std::floor((reach - cs[m]) / s))) -
-          first[m] + 1L);
-      }
-      const auto nimg = accumulate_product(imgsize);
-
-      for (auto k = 0UL; k < nimg; k++) {
-        auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
-        auto csm = coords_t(cs);
-        for (auto m = 0UL; m < GetDim(); m++) {
-          csm[m] += (img[m] + first[m]) * GetSize()[m];
+      auto first = coords_t(GetDim(), -1L);
+      auto imgsize = gridsize_t(GetDim(), 3);
+      for (auto pass = 0; pass < 2; pass++) {
+        const auto nimg = accumulate_product(imgsize);
+
+        for (auto k = 0UL; k < nimg; k++) {
+          auto img = index_to_array<coords_t, gridsize_t>(k, imgsize);
+          auto csm = coords_t(cs);
+          for (auto m = 0UL; m < GetDim(); m++) {
+            csm[m] += (img[m] + first[m]) * GetSize()[m];
+          }
+          auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
+
+          if (dist < mindist) {
+            mindist = dist;
+            minvec = vec;
+          }
         }
-        auto [dist, vec] = bravais.GetDistanceVector(c0, csm);
 
-        if (dist < mindist) {
-          mindist = dist;
-          minvec = vec;
+        for (auto m = 0UL; m < GetDim(); m++) {
+          const auto s = static_cast<double>(GetSize()[m]);
+          const auto reach = mindist * inorm[m] * (1.0 + 1e-9);
+          first[m] = static_cast<long>(std::ceil((-reach - cs[m]) / s));
+          imgsize[m] = static_cast<size_t>(
+            static_cast<long>(std::floor((reach - cs[m]) / s)) - first[m] + 1L);
         }
       }
     }
-- 
2.43.0


From 7f0287a5a8b5ba5eaff8923e30464851268bca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:36 +0000
Subject: [PATCH 23/32] fix: save the name of a move with its statistics

---
 include/bwsl/mcutils/MoveStats.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/mcutils/MoveStats.hpp b/include/bwsl/mcutils/MoveStats.hpp
index 03eb46c..c15d626 100644
--- a/include/bwsl/mcutils/MoveStats.hpp
+++ b/include/bwsl/mcutils/MoveStats.hpp
@@ -25,6 +25,7 @@
 
 // boost
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/string.hpp>
 #include <boost/serialization/version.hpp>
 
 // std
@@ -199,7 +200,7 @@ private:
 
 template<class Archive>
 inline auto
-MoveStats::serialize(Archive& ar, const unsigned int /* version */) -> void
+MoveStats::serialize(Archive& ar, const unsigned int version) -> void
 {
   // clang-format off
   ar & prob_;
@@ -209,6 +210,11 @@ MoveStats::serialize(Archive& ar, const unsigned int /* version */) -> void
   ar & impossible_;
   ar & proposedflag_;
   // clang-format on
+
+  // archives written before version 1 do not hold the name
+  if (version > 0U) {
+    ar & name_;
+  }
 }
 
 inline MoveStats::MoveStats(std::string name)
@@ -284,4 +290,6 @@ operator<<(std::ostream& os, const MoveStats& dt) -> std::ostream&
 }
 } // namespace bwsl
 
+BOOST_CLASS_VERSION(bwsl::montecarlo::MoveStats, 1)
+
 // vim: set ft=cpp ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From 637be091a9d6af0ab8b002a1e8d8a515fa5867e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 24/32] fix: signed difference reaching the lowest value

---
 include/bwsl/MathUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index cf8fb90..2821ff3 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -161,7 +161,8 @@ signeddiff(T a, T b) -> R
                 "Non valid unsigned type for signeddifference");
   static_assert(std::is_signed<R>::value,
                 "Non valid unsigned type for signeddifference");
-  return (a > b) ? (R)(a - b) : -(R)(b - a);
+  // the lowest value of R has no positive counterpart
+  return (a >= b) ? (R)(a - b) : -(R)(b - a - 1) - 1;
 }
 
 ///
-- 
2.43.0


From c3311644d334b1fe5a0054e2fd980a258efe8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 25/32] fix: the greatest common divisor is not negative

---
 include/bwsl/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index 2821ff3..f6e4b98 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -404,7 +404,7 @@ auto
 get_gcd(T a, T b) -> T
 {
   if (b == 0) {
-    return a;
+    return a < 0 ? -a : a;
   }
   return get_gcd(b, a % b);
 }
-- 
2.43.0


From 47ebd1658557ee22fe17bb4c746ef97629a5da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 26/32] fix: keep the number of bins when resizing a histogram
 fails

The new number of bins was recorded before the storage was resized: after a
resize that threw (not enough memory, or more bins than a vector can hold)
the histogram believed to have bins that did not exist.
---
 include/bwsl/HistAccumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 02afb51..acfcdfd 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -155,8 +155,8 @@ HistAccumulator::ForceAdd(size_t idx, T val) -> void
 inline void
 HistAccumulator::Resize(size_t nbins)
 {
-  nbins_ = nbins;
   acc_.resize(nbins);
+  nbins_ = nbins;
 }
 
 inline auto
-- 
2.43.0


From 4c52eef373207a680a1abbe09032902b604c9963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 27/32] fix: the message of AccumulatorOverflow can be read
 where it is caught

---
 include/bwsl/accumulators/AccumulatorsExceptions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bwsl/accumulators/AccumulatorsExceptions.hpp b/include/bwsl/accumulators/AccumulatorsExceptions.hpp
index 5248c05..847178f 100644
--- a/include/bwsl/accumulators/AccumulatorsExceptions.hpp
+++ b/include/bwsl/accumulators/AccumulatorsExceptions.hpp
@@ -21,6 +21,7 @@ namespace bwsl::exception {
 
 class AccumulatorOverflow : public std::exception
 {
+public:
   [[nodiscard]] auto what() const noexcept -> const char* override
   {
     return "Too many measurements added to the accumulator";
-- 
2.43.0


From f535b4ddb60c42ed234adaccf9010572552b713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 28/32] fix: a weighted choice with a subnormal total returns a
 valid index

---
 include/bwsl/MathUtils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index f6e4b98..d4119cc 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -205,7 +205,9 @@ choose_between(const T& probs, G& rng) -> SizeType
 
   std::uniform_real_distribution<typename T::value_type> udist(0.0,
                                                                comul.back());
-  auto rnd = udist(rng);
+  // with a subnormal total the draw can be rounded up to the total itself
+  auto rnd = std::min(
+    udist(rng), std::nextafter(comul.back(), typename T::value_type{ 0 }));
 
   typename T::iterator choice =
     std::upper_bound(comul.begin(), comul.end(), rnd);
@@ -222,7 +224,9 @@ choose_between_psums(const T& comul, G& rng) -> SizeType
 {
   std::uniform_real_distribution<typename T::value_type> udist(0.0,
                                                                comul.back());
-  auto rnd = udist(rng);
+  // with a subnormal total the draw can be rounded up to the total itself
+  auto rnd = std::min(
+    udist(rng), std::nextafter(comul.back(), typename T::value_type{ 0 }));
 
   typename T::const_iterator choice =
     std::upper_bound(comul.cbegin(), comul.cend(), rnd);
-- 
2.43.0


From 32e460dcf71a03125c1bd1cf15828a24b3b6ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 29/32] fix: binomial coefficients that fit their type are not
 spoiled by larger intermediate values

---
 include/bwsl/MathUtils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index d4119cc..e3bffcd 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -185,8 +185,14 @@ cbinomial(T n, T k) -> double
   }
 
   for (T i = 1; i <= k; ++i) {
-    res *= n + 1 - i;
-    res /= i;
+    if constexpr (std::is_integral<T>::value) {
+      // divide first, so that no intermediate value exceeds the result
+      const T g = std::gcd(res, i);
+      res = (res / g) * ((n - i + 1) / (i / g));
+    } else {
+      res *= n + 1 - i;
+      res /= i;
+    }
   }
 
   return res;
-- 
2.43.0


From ada251717445d8102535dd7c57a8365d9bc7b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 30/32] fix: wrapping coordinates far outside the grid takes
 bounded time

---
 include/bwsl/HyperCubicGrid.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index cd9d779..2d2e9e9 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -206,12 +206,11 @@ HyperCubicGrid::EnforceBoundaries(coords_t& coords) const -> void
   if (HasClosedBoundaries()) {
     for (auto i = 0UL; i < dim_; i++) {
       auto s = static_cast<long>(size_[i]);
-      while (coords[i] < 0) {
+      // however far outside the coordinate is
+      coords[i] %= s;
+      if (coords[i] < 0) {
         coords[i] += s;
       }
-      while (coords[i] >= static_cast<long>(s)) {
-        coords[i] -= s;
-      }
     }
   }
 }
-- 
2.43.0


From f60a8c744badca672be3a545eaf3f6645ce10d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:46 +0000
Subject: [PATCH 31/32] fix: the variance of long integer histories does not
 overflow

---
 .../accumulators/NaiveIntegerAccumulator.hpp     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index 48d5a64..9f6ba5b 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -142,9 +142,21 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  auto n = static_cast<long>(count_);
+  // squared deviations from the integer closest to the mean: they are not
+  // larger than the sum of squares, the products with the count would be
+  const auto n = static_cast<long>(count_);
+  auto q = sum_ / n;
+  auto r = sum_ % n;
+  if (r > n / 2) {
+    q += 1;
+    r -= n;
+  } else if (r < -(n / 2)) {
+    q -= 1;
+    r += n;
+  }
+  const auto rd = static_cast<double>(r);
 
-  return static_cast<double>(n * sum2_ - sum_ * sum_) / count_;
+  return static_cast<double>(sum2_ - q * (sum_ + r)) - rd * (rd / n);
 }
 
 inline auto
-- 
2.43.0


From 811f7d9a9e5c5d45f07762fc641bb9dd5d7f21dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:04 +0000
Subject: [PATCH 32/32] fix: generators are saved and restored whatever the
 global locale is

---
 include/bwsl/RNGUtils.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bwsl/RNGUtils.hpp b/include/bwsl/RNGUtils.hpp
index 473038d..1cc4941 100644
--- a/include/bwsl/RNGUtils.hpp
+++ b/include/bwsl/RNGUtils.hpp
@@ -19,6 +19,7 @@
 #include <boost/serialization/version.hpp>
 
 // std
+#include <locale>
 #include <random>
 #include <sstream>
 #include <string>
@@ -47,6 +48,8 @@ load(Ar& ar, std::mersenne_twister_engine<MT_TARGLIST>& mt, unsigned /*unused*/)
   std::string text;
   ar& text;
   std::istringstream iss(text);
+  // whatever the global locale is
+  iss.imbue(std::locale::classic());
 
   if (!(iss >> mt)) {
     throw std::invalid_argument("mersenne_twister_engine state");
@@ -60,6 +63,8 @@ save(Ar& ar,
      unsigned /*unused*/) -> void
 {
   std::ostringstream oss;
+  // whatever the global locale is
+  oss.imbue(std::locale::classic());
   if (!(oss << mt)) {
     throw std::invalid_argument("mersenne_twister_engine state");
   }
-- 
2.43.0

