From ce97b0ac8ca4f61f8f58419fbb2fbb3cdf76dfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 01/10] fix: reject unsupported angular grid sizes

The generate(npts) dispatch of the four angular families fell through for a
size that is not tabulated and returned value-initialised (all zero) points
and weights of that size.  Throw std::runtime_error instead.
---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 3 +++
 include/integratorxx/quadratures/s2/delley.hpp         | 3 +++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 3 +++
 include/integratorxx/quadratures/s2/womersley.hpp      | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..a99e265 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -162,6 +163,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_7512<RealType>>(points, weights);
     else if (npts == 15012)
       detail::copy_grid<ahrens_beylkin_15012<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Ahrens-Beylkin Points");
 
     return std::make_tuple(points, weights);
   }
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..604cebf 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -85,6 +86,8 @@ struct quadrature_traits<Delley<RealType>> {
       detail::copy_grid<delley_3074<RealType>>(points, weights);
     else if(npts == 3470)
       detail::copy_grid<delley_3470<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Delley Points");
 
     // Pretabulated weights are missing 4 pi
     for(auto i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..ac44b6f 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -107,6 +108,8 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
       detail::copy_grid<lebedev_laikov_4802<RealType>>( points, weights );
     else if( npts == 5810 ) 
       detail::copy_grid<lebedev_laikov_5810<RealType>>( points, weights );
+    else
+      throw std::runtime_error("Unsupported Number of Lebedev-Laikov Points");
 
     // Pretabulated weights are missing 4 pi
     for(size_t i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..4c9fd69 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -184,6 +185,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_7814<RealType>>(points, weights);
     else if(npts == 7939)
       detail::copy_grid<womersley_7939<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Womersley Points");
   }
 
   inline static std::tuple<point_container, weight_container> generate(
@@ -319,6 +322,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_1923<RealType>>(points, weights);
     else if(npts == 1986)
       detail::copy_grid<womersley_1986<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Number of Womersley Points");
     return std::make_tuple(points, weights);
   }
 
-- 
2.43.0


From 32315661bd30e0db22dde70141f5b5b58d02bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 02/10] fix: positive Jacobian for the (-inf,up) bound
 transformation

---
 include/integratorxx/util/bound_transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..ce4053c 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -42,8 +42,8 @@ constexpr inline auto transform_minus_one_to_one(
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From 2a70d10adb7e3b8c70dc1659411e41772fdfd667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 03/10] fix: bound_transform.hpp includes what it uses

---
 include/integratorxx/util/bound_transform.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index ce4053c..85c4f02 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cassert>
 #include <limits>
+#include <tuple>
 
 namespace IntegratorXX {
 
-- 
2.43.0


From 943229cd801d76d653462b7624474b867c208423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 04/10] fix: const batch iterators compare with const batch
 iterators

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..8963e79 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -351,8 +351,8 @@ class SphericalMicroBatcher {
       return *this;
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ) const { return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ) const { return !(*this == other);   }
 
 
 
-- 
2.43.0


From 4d2b6f9ab835837434d4e3c59a91d4d16802d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 05/10] fix: partition iterator post-increment and addition
 leave the right iterator

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..3429cb6 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -98,15 +98,13 @@ public:
 
     rgp_iterator& operator++(){ idx_it++; quad_it++; return *this; }
     rgp_iterator  operator++(int) {
-      iterator retval = *this;
+      rgp_iterator retval = *this;
       ++(*this);
       return retval;
     }
 
-    rgp_iterator& operator+(int i) {
-      idx_it  += i;
-      quad_it += i;
-      return (*this);
+    rgp_iterator operator+(int i) const {
+      return rgp_iterator( idx_it + i, quad_it + i );
     }
 
     bool operator==(rgp_iterator other) const { 
-- 
2.43.0


From fa5a0372a53b1044d206388ad0ba69571a686b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 06/10] fix: adding to a batch iterator leaves the iterator
 unchanged

---
 include/integratorxx/batch/spherical_micro_batcher.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 8963e79..8480118 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -275,9 +275,8 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    iterator operator+(int i) const {
+      return iterator( idx_it + i, point_begin, weight_begin );
     } 
 
     bool operator==( iterator other ){ return idx_it == other.idx_it; }
@@ -346,9 +345,8 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    const_iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    const_iterator operator+(int i) const {
+      return const_iterator( idx_it + i, point_begin, weight_begin );
     } 
 
     bool operator==( const_iterator other ) const { return idx_it == other.idx_it; }
-- 
2.43.0


From b38e58bd99302631cb8edffa590e872a254c0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 07/10] fix: pruning schemes work for radial quadratures of
 fewer than five points

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp       | 2 +-
 include/integratorxx/generators/impl/pruned_grid.hpp            | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 3429cb6..24c7d50 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..b7f6a78 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -18,6 +18,8 @@ auto make_pruned_grid_impl(const RadialQuadType& rq,
 
   RadialGridPartition<AngularQuadType> rgp;
   for( auto& region : pruning_regions ) {
+    // Small radial quadratures may leave a region without any points
+    if( region.idx_st == region.idx_en ) continue;
     rgp.add_quad( rq, region.idx_st, AngularQuadType(region.angular_size) );
   }
   rgp.finalize(rq);
-- 
2.43.0


From 11d7336de0dee1d75a080640c1b7db61f0e9df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 08/10] fix: public headers include what they use

---
 include/integratorxx/batch/spherical_micro_batcher.hpp     | 7 +++++++
 .../composite_quadratures/product_quadrature.hpp           | 6 ++++++
 .../composite_quadratures/pruned_spherical_quadrature.hpp  | 4 ++++
 .../quadratures/s2/womersley/womersley_grids.hpp           | 3 +++
 include/integratorxx/util/copy_grid.hpp                    | 2 ++
 include/integratorxx/util/create_array.hpp                 | 4 ++++
 include/integratorxx/util/legendre.hpp                     | 1 +
 7 files changed, 27 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 8480118..cfc1245 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -2,7 +2,14 @@
 
 #include <integratorxx/composite_quadratures/spherical_quadrature.hpp>
 #include <integratorxx/type_traits.hpp>
+#include <algorithm>
 #include <chrono>
+#include <functional>
+#include <iterator>
+#include <memory>
+#include <stdexcept>
+#include <tuple>
+#include <utility>
 #include <iostream>
 #include <iomanip>
 #include <vector>
diff --git a/include/integratorxx/composite_quadratures/product_quadrature.hpp b/include/integratorxx/composite_quadratures/product_quadrature.hpp
index 4268570..4b9d04a 100644
--- a/include/integratorxx/composite_quadratures/product_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/product_quadrature.hpp
@@ -2,6 +2,12 @@
 
 #include <integratorxx/quadrature.hpp>
 
+#include <array>
+#include <memory>
+#include <tuple>
+#include <utility>
+#include <vector>
+
 namespace IntegratorXX {
 
 template <typename CombineOp, typename Quad1, typename Quad2>
diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 24c7d50..33a22b2 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -5,7 +5,11 @@
 #include <integratorxx/types.hpp>
 #include <integratorxx/type_traits.hpp>
 
+#include <cassert>
+#include <memory>
+#include <tuple>
 #include <utility>
+#include <vector>
 
 namespace IntegratorXX {
 
diff --git a/include/integratorxx/quadratures/s2/womersley/womersley_grids.hpp b/include/integratorxx/quadratures/s2/womersley/womersley_grids.hpp
index 3a2c871..834fdbb 100644
--- a/include/integratorxx/quadratures/s2/womersley/womersley_grids.hpp
+++ b/include/integratorxx/quadratures/s2/womersley/womersley_grids.hpp
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <integratorxx/types.hpp>
+#include <integratorxx/util/create_array.hpp>
+
+#include <cmath>
 
 #include "womersley_3.hpp"
 #include "womersley_6.hpp"
diff --git a/include/integratorxx/util/copy_grid.hpp b/include/integratorxx/util/copy_grid.hpp
index 9d670c8..770c2fb 100644
--- a/include/integratorxx/util/copy_grid.hpp
+++ b/include/integratorxx/util/copy_grid.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
diff --git a/include/integratorxx/util/create_array.hpp b/include/integratorxx/util/create_array.hpp
index f853964..ef2549f 100644
--- a/include/integratorxx/util/create_array.hpp
+++ b/include/integratorxx/util/create_array.hpp
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <array>
+#include <cstddef>
+#include <utility>
+
 namespace IntegratorXX {
 
 namespace detail {
diff --git a/include/integratorxx/util/legendre.hpp b/include/integratorxx/util/legendre.hpp
index 3ad4615..13b376a 100644
--- a/include/integratorxx/util/legendre.hpp
+++ b/include/integratorxx/util/legendre.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cstddef>
 #include <tuple>
 
 namespace IntegratorXX {
-- 
2.43.0


From 8a3b0321468ec183802977f4846816549e178e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 09/10] fix: radial grid partitions can be copy-assigned

---
 include/integratorxx/quadrature.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/integratorxx/quadrature.hpp b/include/integratorxx/quadrature.hpp
index 151992f..74619f5 100644
--- a/include/integratorxx/quadrature.hpp
+++ b/include/integratorxx/quadrature.hpp
@@ -235,6 +235,11 @@ public:
   Quadrature( const Quadrature<Derived>& )     = default;
   Quadrature( Quadrature<Derived>&& ) noexcept = default;
 
+  // Default copy and move assignment (partitions assign vectors of quadratures)
+
+  Quadrature& operator=( const Quadrature<Derived>& )     = default;
+  Quadrature& operator=( Quadrature<Derived>&& ) noexcept = default;
+
   Quadrature( const Derived& d ) :
     Quadrature( dynamic_cast<const Quadrature&>(d) ) { }
   Quadrature( Derived&& d ) noexcept :
-- 
2.43.0


From 3e1291758e8a00a5fff2743614415f3f9fe30a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 10/10] fix: pruning schemes refuse missing radial traits

---
 include/integratorxx/generators/impl/robust_pruning.hpp   | 2 ++
 include/integratorxx/generators/impl/treutler_pruning.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..56a7ffd 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -49,6 +49,8 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
 PrunedSphericalGridSpecification robust_psi4_pruning_scheme(
   UnprunedSphericalGridSpecification unp ) {
 
+  if(!unp.radial_traits) throw std::runtime_error("RadialTraits Not Set");
+
   size_t low_sz, med_sz;
   const auto angular_quad = unp.angular_quad;
   const auto asz = unp.angular_size;
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..25dc8cc 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -42,6 +42,8 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
 PrunedSphericalGridSpecification treutler_pruning_scheme(
   UnprunedSphericalGridSpecification unp ) {
 
+  if(!unp.radial_traits) throw std::runtime_error("RadialTraits Not Set");
+
   size_t low_sz, med_sz;
   const auto angular_quad = unp.angular_quad;
   switch(angular_quad) {
-- 
2.43.0

