From f67f43d027206a337043a75074d6fc76ac56f61d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 01/67] fix: remove dangling sites without recursion

A cascade of removals along a long chain overflowed the stack.
---
 cppcore/src/system/Foundation.cpp | 32 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 8f6df1e..01451dd 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -72,21 +72,29 @@ ArrayXi count_neighbors(Foundation const& foundation) {
 }
 
 void clear_neighbors(Site& site, ArrayXi& neighbor_count, int min_neighbors) {
-    if (neighbor_count[site.get_flat_idx()] == 0) { return; }
+    // Explicit stack instead of recursion: a cascade of removals may be as long as the system
+    auto removed = std::vector<Site>{site};
 
-    site.for_each_neighbor([&](Site neighbor, Hopping) {
-        if (!neighbor.is_valid()) { return; }
+    while (!removed.empty()) {
+        auto const current = removed.back();
+        removed.pop_back();
 
-        auto const neighbor_idx = neighbor.get_flat_idx();
-        neighbor_count[neighbor_idx] -= 1;
-        if (neighbor_count[neighbor_idx] < min_neighbors) {
-            neighbor.set_valid(false);
-            // recursive call... but it will not be very deep
-            clear_neighbors(neighbor, neighbor_count, min_neighbors);
-        }
-    });
+        auto const current_idx = current.get_flat_idx();
+        if (neighbor_count[current_idx] == 0) { continue; }
+
+        current.for_each_neighbor([&](Site neighbor, Hopping) {
+            if (!neighbor.is_valid()) { return; }
 
-    neighbor_count[site.get_flat_idx()] = 0;
+            auto const neighbor_idx = neighbor.get_flat_idx();
+            neighbor_count[neighbor_idx] -= 1;
+            if (neighbor_count[neighbor_idx] < min_neighbors) {
+                neighbor.set_valid(false);
+                removed.push_back(neighbor);
+            }
+        });
+
+        neighbor_count[current_idx] = 0;
+    }
 }
 
 } // namespace detail
-- 
2.43.0


From a3938b7943d841bf6ffeec764180316f72d64e05 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 02/67] fix: cover the whole shape when sites are far from
 their cell origin

The bounds ignored the lattice offset and the sublattice positions, so a shape
could miss a layer of sites inside of it.
---
 cppcore/src/system/Foundation.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 01451dd..83ff789 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -18,6 +18,19 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
     lower_bound.head(ndim) -= 1;
     upper_bound.head(ndim) += 1;
 
+    // The sites of a unit cell may be far from its origin (lattice offset + sublattice position):
+    // extend the bounds to all cells which have a site within the bounding box of the vertices.
+    for (auto const& pair : lattice.get_sublattices()) {
+        auto const origin = lattice.calc_position(Index3D::Zero(), pair.first);
+        for (auto const& point : shape.vertices) {
+            auto const v = lattice.translate_coordinates(point - origin);
+            for (auto i = 0; i < ndim; ++i) {
+                lower_bound[i] = std::min(lower_bound[i], static_cast<int>(std::ceil(v[i] - 0.01f)));
+                upper_bound[i] = std::max(upper_bound[i], static_cast<int>(std::floor(v[i] + 0.01f)));
+            }
+        }
+    }
+
     return {lower_bound, upper_bound};
 }
 
-- 
2.43.0


From 78dcfc9db6d9ee254e2671f3004e287904fb3220 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 03/67] fix: allow aliases before other sublattices and aliases
 of aliases

The site registry was indexed by unique sublattice IDs but sized without the
aliases, and an alias of an alias referred to a family which doesn't exist.
---
 cppcore/src/Lattice.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..5e09880 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id; // the original may itself be an alias
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
@@ -245,21 +245,23 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
+    // The IDs of the unique sublattices may be interleaved with those of aliases
+    auto size = idx_t{0};
+    for (auto const& pair : sublattices) {
+        auto const& sub = pair.second;
+        if (SubID(sub.alias_id) == sub.unique_id) {
+            size = std::max(size, static_cast<idx_t>(sub.unique_id.value()) + 1);
         }
-    );
+    }
 
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    auto energies = std::vector<MatrixXcd>(size);
+    auto names = std::vector<std::string>(size);
     for (auto const& pair : sublattices) {
         auto const& sub = pair.second;
-        if (SubID(sub.alias_id) != sub.unique_id) { continue; }
+        if (sub.unique_id.value() >= size) { continue; } // trailing alias
 
-        energies.at(sub.unique_id.value()) = sub.energy;
-        names.at(sub.unique_id.value()) = pair.first;
+        energies[sub.unique_id.value()] = sub.energy;
+        names[sub.unique_id.value()] = pair.first;
     }
     return {energies, names};
 }
-- 
2.43.0


From db98f74c99870ddc7584df8207c7cb7614ad59b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:57:53 +0000
Subject: [PATCH 04/67] fix: remove dangling sites at the edges of the
 foundation

---
 cppcore/include/system/Foundation.hpp |  2 ++
 cppcore/src/system/Foundation.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cppcore/include/system/Foundation.hpp b/cppcore/include/system/Foundation.hpp
index 2224985..dcf6038 100644
--- a/cppcore/include/system/Foundation.hpp
+++ b/cppcore/include/system/Foundation.hpp
@@ -21,6 +21,8 @@ namespace detail {
     ArrayXi count_neighbors(Foundation const& foundation);
     /// Reduce this site's neighbor count to zero and inform its neighbors of the change
     void clear_neighbors(Site& site, ArrayXi& neighbor_count, int min_neighbors);
+    /// Remove sites with too few neighbors because the rest are outside of the foundation
+    void clear_edges(Foundation& foundation, int min_neighbors);
 } // namespace detail
 
 /// Remove sites which have a neighbor count lower than `min_neighbors`
diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 83ff789..407adf3 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -110,6 +110,19 @@ void clear_neighbors(Site& site, ArrayXi& neighbor_count, int min_neighbors) {
     }
 }
 
+void clear_edges(Foundation& foundation, int min_neighbors) {
+    auto const& unit_cell = foundation.get_optimized_unit_cell();
+    auto const neighbor_count = count_neighbors(foundation);
+
+    for (auto& site : foundation) {
+        auto const count = neighbor_count[site.get_flat_idx()];
+        auto const max_count = static_cast<int>(unit_cell[site.get_sub_idx()].hoppings.size());
+        if (count < min_neighbors && count < max_count) {
+            site.set_valid(false);
+        }
+    }
+}
+
 } // namespace detail
 
 void remove_dangling(Foundation& foundation, int min_neighbors) {
@@ -142,6 +155,7 @@ Foundation::Foundation(Lattice const& lattice, Shape const& shape)
       sub_size(lattice.nsub()),
       positions(detail::generate_positions(lattice.calc_position(bounds.first), spatial_size, lattice)),
       is_valid(shape.contains(positions)) {
+    detail::clear_edges(*this, lattice.get_min_neighbors());
     remove_dangling(*this, lattice.get_min_neighbors());
 }
 
-- 
2.43.0


From 3623b8ef9f9c58c83e17cb4fd40cf034a0536303 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 05/67] fix: a line contains sites located exactly at its end
 points

---
 cppcore/src/system/Shape.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index d4921f3..21de97d 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -32,13 +32,11 @@ ArrayX<bool> is_acute_angle(Cartesian a, Cartesian b, CartesianArrayConstRef c)
     auto const bc_y = ArrayXf{c.y() - b.y()};
     auto const bc_z = ArrayXf{c.z() - b.z()};
 
-    // Compute the cosine between the two vectors based on the dot product
+    // The sign of the dot product is the sign of the cosine between the two vectors. Don't divide
+    // by the lengths: the cosine is not defined (NaN) for a point which is exactly at the vertex.
     auto const ba_dot_bc = ba.x() * bc_x + ba.y() * bc_y + ba.z() * bc_z;
-    auto const ba_length = ba.norm();
-    auto const bc_length = sqrt(bc_x.cwiseAbs2() + bc_y.cwiseAbs2() + bc_z.cwiseAbs2());
-    auto const cos_theta = ba_dot_bc / (ba_length * bc_length);
 
-    return cos_theta >= 0; // acute angle
+    return ba_dot_bc >= 0; // acute angle
 };
 
 WithinPolygon::WithinPolygon(Shape::Vertices const& vertices)
-- 
2.43.0


From aec848bfe5cf7ffc1c960b7019d67ff7edce0774 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 06/67] fix: don't ignore almost horizontal sides of a polygon

---
 cppcore/src/system/Shape.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index 21de97d..b759722 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -58,19 +58,17 @@ ArrayX<bool> WithinPolygon::operator()(CartesianArrayConstRef positions) const {
         auto const& x1 = x[i]; auto const& x2 = x[j];
         auto const& y1 = y[i]; auto const& y2 = y[j];
 
-        // Check if ray is parallel to this side of the polygon
-        if (num::approx_equal(y1, y2)) {
+        // Check if ray is parallel to this side of the polygon. The comparison must be exact: leaving
+        // out an almost parallel side would flip the state of the points which are level with it.
+        if (y1 == y2) {
             continue; // avoid division by zero in the next step
         }
 
-        // The slope of this side
-        auto const k = (x2 - x1) / (y2 - y1);
-
         // Shoot the ray along the x direction and see if it passes between `y1` and `y2`
         auto intersects_y = (y1 > positions.y()) != (y2 > positions.y());
 
         // The ray is moving from left to right and may cross a side of the polygon
-        auto x_side = k * (positions.y() - y1) + x1;
+        auto x_side = (positions.y() - y1) / (y2 - y1) * (x2 - x1) + x1;
         auto intersects_x = positions.x() > x_side;
 
         // Eigen doesn't support `operator!`, so this will have to do...
-- 
2.43.0


From c90dcbd9ab98f0151bc6d907b0daabd8a0ce00ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 07/67] fix: periodic hoppings which are longer than a cell or
 cross more than one period

---
 cppcore/src/system/Symmetry.cpp | 43 ++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..64000e9 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -45,6 +45,15 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
     auto const& lattice = foundation.get_lattice();
     auto const symmetry_area = area(foundation);
 
+    // The longest hopping in each direction, i.e. the width of the boundary
+    Index3D max_range = Index3D::Zero();
+    auto const unit_cell = lattice.optimized_unit_cell();
+    for (auto const& sublattice : unit_cell) {
+        for (auto const& hopping : sublattice.hoppings) {
+            max_range = max_range.cwiseMax(hopping.relative_index.cwiseAbs());
+        }
+    }
+
     std::vector<Translation> translations;
     auto add_translation = [&](Index3D direction) {
         if (direction == Index3D::Zero()) {
@@ -60,10 +69,20 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
         auto boundary_slice = SliceIndex3D();
         for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
-            if (direction[n] > 0)
-                boundary_slice[n] = symmetry_area.left[n];
-            else if (direction[n] < 0)
-                boundary_slice[n] = symmetry_area.right[n];
+            if (direction[n] == 0) { continue; }
+
+            // The foundation may be smaller than the period
+            auto start = std::max(symmetry_area.left[n], 0);
+            auto end = std::min(symmetry_area.right[n] + 1, foundation.get_spatial_size()[n]);
+            if (direction[n] > 0) {
+                end = std::min(end, symmetry_area.left[n] + max_range[n]);
+            } else {
+                start = std::max(start, symmetry_area.right[n] + 1 - max_range[n]);
+            }
+            if (start >= end) {
+                return; // there are no sites at this boundary
+            }
+            boundary_slice[n] = {start, end};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
@@ -77,11 +96,23 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
         translations.push_back({direction, boundary_slice, shift_index, shift_length});
     };
 
+    // A hopping may cross several periods and the number of crossed periods depends on the position
+    // of the site: in each enabled direction it's in the range [distance / period] rounded down/up.
     auto const masks = detail::make_masks(enabled_directions, lattice.ndim());
-    for (auto const& sublattice : lattice.optimized_unit_cell()) {
+    for (auto const& sublattice : unit_cell) {
         for (auto const& hopping : sublattice.hoppings) {
             for (auto const& mask : masks) {
-                add_translation(hopping.relative_index.cwiseProduct(mask));
+                Index3D direction = Index3D::Zero();
+                for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
+                    if (!enabled_directions[n]) { continue; }
+
+                    auto const period = symmetry_area.middle[n];
+                    auto const distance = std::abs(hopping.relative_index[n]);
+                    auto const num_periods = mask[n] ? (distance + period - 1) / period
+                                                     : distance / period;
+                    direction[n] = (hopping.relative_index[n] < 0) ? -num_periods : num_periods;
+                }
+                add_translation(direction);
             }
         }
     }
-- 
2.43.0


From 4f855cf1d219badb1eb6357b302ce8f1b10b49df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 08/67] fix: count neighbors of state modifiers across periods
 and outside of the foundation

---
 cppcore/include/system/Foundation.hpp | 45 ++++++++++++++++++++++++++-
 cppcore/src/system/Foundation.cpp     | 20 +++++++-----
 cppcore/src/system/Symmetry.cpp       |  1 +
 3 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/cppcore/include/system/Foundation.hpp b/cppcore/include/system/Foundation.hpp
index dcf6038..b4b1c1e 100644
--- a/cppcore/include/system/Foundation.hpp
+++ b/cppcore/include/system/Foundation.hpp
@@ -22,7 +22,7 @@ namespace detail {
     /// Reduce this site's neighbor count to zero and inform its neighbors of the change
     void clear_neighbors(Site& site, ArrayXi& neighbor_count, int min_neighbors);
     /// Remove sites with too few neighbors because the rest are outside of the foundation
-    void clear_edges(Foundation& foundation, int min_neighbors);
+    void clear_edges(Foundation& foundation, ArrayXi const& neighbor_count, int min_neighbors);
 } // namespace detail
 
 /// Remove sites which have a neighbor count lower than `min_neighbors`
@@ -98,6 +98,29 @@ public:
 
     FinalizedIndices const& get_finalized_indices() const;
 
+    /// Was the foundation cut down to a shape? If so, there is nothing outside of the foundation.
+    bool has_shape() const { return shaped; }
+
+    /// Set the start and length of the period in each direction. Not periodic if the length is 0.
+    void set_period(Index3D const& start, Index3D const& length) {
+        period_start = start;
+        period_length = length;
+    }
+
+    /// Is this spatial index located inside the period?
+    bool is_in_period(Index3D const& index) const { return periodic_index(index) == index; }
+
+    /// Translate the spatial index to the equivalent inside the period
+    Index3D periodic_index(Index3D index) const {
+        for (auto n = 0; n < index.size(); ++n) {
+            if (period_length[n] <= 0) { continue; } // not periodic
+
+            auto const offset = (index[n] - period_start[n]) % period_length[n];
+            index[n] = period_start[n] + ((offset < 0) ? offset + period_length[n] : offset);
+        }
+        return index;
+    }
+
 private:
     Lattice const& lattice;
     OptimizedUnitCell unit_cell;
@@ -108,6 +131,10 @@ private:
     CartesianArray positions; ///< real space coordinates of lattice sites
     ArrayX<bool> is_valid; ///< indicates if the site should be included in the final system
 
+    bool shaped = false; ///< is it cut down to a shape
+    Index3D period_start = {0, 0, 0}; ///< spatial index of the first cell in the period
+    Index3D period_length = {0, 0, 0}; ///< number of cells in the period (0 if not periodic)
+
     mutable FinalizedIndices finalized_indices;
 
     friend class Site;
@@ -158,6 +185,22 @@ public:
         }
     }
 
+    /// Same as above, but the neighbors across the edges of a period are the sites inside of it
+    template<class Fn>
+    void for_each_periodic_neighbor(Fn lambda) const  {
+        auto const spatial_size = foundation->spatial_size.array();
+
+        for (auto const& hopping : foundation->unit_cell[sub_idx].hoppings) {
+            auto const neighbor_index = Array3i(
+                foundation->periodic_index(spatial_idx + hopping.relative_index)
+            );
+            if ((neighbor_index < 0).any() || (neighbor_index >= spatial_size).any())
+                continue; // out of bounds
+
+            lambda(Site(foundation, neighbor_index, hopping.to_sub_idx), hopping);
+        }
+    }
+
     friend bool operator==(Site const& l, Site const& r) { return l.flat_idx == r.flat_idx; }
     friend bool operator!=(Site const& l, Site const& r) { return !(l == r); }
 
diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 407adf3..a13f49c 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -72,7 +72,9 @@ ArrayXi count_neighbors(Foundation const& foundation) {
 
         // Reduce the neighbor count for sites on the edges
         for (auto const& hopping : sublattice.hoppings) {
-            auto const index = Array3i(site.get_spatial_idx() + hopping.relative_index);
+            auto const index = Array3i(
+                foundation.periodic_index(site.get_spatial_idx() + hopping.relative_index)
+            );
             if ((index < 0).any() || (index >= spatial_size).any()) {
                 num_neighbors -= 1;
             }
@@ -95,7 +97,7 @@ void clear_neighbors(Site& site, ArrayXi& neighbor_count, int min_neighbors) {
         auto const current_idx = current.get_flat_idx();
         if (neighbor_count[current_idx] == 0) { continue; }
 
-        current.for_each_neighbor([&](Site neighbor, Hopping) {
+        current.for_each_periodic_neighbor([&](Site neighbor, Hopping) {
             if (!neighbor.is_valid()) { return; }
 
             auto const neighbor_idx = neighbor.get_flat_idx();
@@ -110,9 +112,8 @@ void clear_neighbors(Site& site, ArrayXi& neighbor_count, int min_neighbors) {
     }
 }
 
-void clear_edges(Foundation& foundation, int min_neighbors) {
+void clear_edges(Foundation& foundation, ArrayXi const& neighbor_count, int min_neighbors) {
     auto const& unit_cell = foundation.get_optimized_unit_cell();
-    auto const neighbor_count = count_neighbors(foundation);
 
     for (auto& site : foundation) {
         auto const count = neighbor_count[site.get_flat_idx()];
@@ -127,8 +128,13 @@ void clear_edges(Foundation& foundation, int min_neighbors) {
 
 void remove_dangling(Foundation& foundation, int min_neighbors) {
     auto neighbor_count = detail::count_neighbors(foundation);
+    if (foundation.has_shape()) {
+        detail::clear_edges(foundation, neighbor_count, min_neighbors);
+    }
+
     for (auto& site : foundation) {
-        if (!site.is_valid()) {
+        // The sites outside of the period are not missing: they are images of those inside
+        if (!site.is_valid() && foundation.is_in_period(site.get_spatial_idx())) {
             detail::clear_neighbors(site, neighbor_count, min_neighbors);
         }
     }
@@ -154,8 +160,8 @@ Foundation::Foundation(Lattice const& lattice, Shape const& shape)
       spatial_size((bounds.second - bounds.first) + Index3D::Ones()),
       sub_size(lattice.nsub()),
       positions(detail::generate_positions(lattice.calc_position(bounds.first), spatial_size, lattice)),
-      is_valid(shape.contains(positions)) {
-    detail::clear_edges(*this, lattice.get_min_neighbors());
+      is_valid(shape.contains(positions)),
+      shaped(true) {
     remove_dangling(*this, lattice.get_min_neighbors());
 }
 
diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 64000e9..e754e06 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -122,6 +122,7 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
 void TranslationalSymmetry::apply(Foundation& foundation) const {
     auto symmetry_area = area(foundation);
+    foundation.set_period(symmetry_area.left, symmetry_area.middle);
 
     for (auto& site : foundation) {
         site.set_valid(site.is_valid() && symmetry_area.contains(site.get_spatial_idx()));
-- 
2.43.0


From 173793f01ec60397ea15f27e2d39a7deb8da3f44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 09/67] fix: renumber hopping indices when sites are removed
 after a generator

---
 cppcore/src/system/HoppingBlocks.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..9f64af2 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -78,13 +78,23 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-    using std::begin; using std::end;
+    // The remaining sites are renumbered to close the gaps
+    auto new_index = std::vector<storage_idx_t>(static_cast<size_t>(keep.size()));
+    num_sites = 0;
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_index[i] = static_cast<storage_idx_t>(num_sites);
+        if (keep[i]) { ++num_sites; }
+    }
 
-    num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo.row = new_index[coo.row];
+            coo.col = new_index[coo.col];
+        }
     }
 }
 
-- 
2.43.0


From d9399f3297a0c29d5f8bbc9d457890bf0b65de26 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 10/67] fix: preserve the direction of generated hoppings

---
 cppcore/src/system/HoppingBlocks.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 9f64af2..86b9ba6 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -66,15 +66,19 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
     block.reserve(block.size() + rows.size());
 
     for (auto i = 0; i < rows.size(); ++i) {
-        auto m = rows[i];
-        auto n = cols[i];
-        if (m > n) { std::swap(m, n); } // upper triangular format
-        block.emplace_back(m, n);
+        block.emplace_back(rows[i], cols[i]);
     }
 
-    // Maintain upper triangular format
-    std::sort(block.begin(), block.end());
-    block.erase(std::unique(block.begin(), block.end()), block.end());
+    // Each pair of sites must appear only once, but the direction of the first appearance is
+    // preserved: the energy matrix is conjugated and transposed in the opposite direction
+    using Pair = std::pair<storage_idx_t, storage_idx_t>;
+    auto const pair = [](COO const& c) -> Pair { return std::minmax(c.row, c.col); };
+    std::stable_sort(block.begin(), block.end(), [&](COO const& a, COO const& b) {
+        return pair(a) < pair(b);
+    });
+    block.erase(std::unique(block.begin(), block.end(), [&](COO const& a, COO const& b) {
+        return pair(a) == pair(b);
+    }), block.end());
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-- 
2.43.0


From cd379adbf87a1b7b0aeca70966a006bc48dbef84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 11/67] fix: complete upper triangular onsite energy of
 generated sites

---
 cppcore/src/system/Registry.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index cfe8eb6..5f24348 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -15,6 +15,12 @@ void check_energy(HoppingRegistry const&, MatrixXcd const& energy) {
     detail::check_hopping_energy(energy);
 }
 
+MatrixXcd complete_energy(SiteRegistry const&, MatrixXcd const& energy) {
+    return energy.selfadjointView<Eigen::Upper>(); // may be given as upper triangular
+}
+
+MatrixXcd complete_energy(HoppingRegistry const&, MatrixXcd const& energy) { return energy; }
+
 template<class ID>
 constexpr char const* kind() { return std::is_same<ID, SiteID>() ? "Site" : "Hopping"; }
 
@@ -39,7 +45,7 @@ void Registry<ID>::register_family(std::string const& name, MatrixXcd const& ene
     }
 
     names.push_back(name);
-    energies.push_back(energy);
+    energies.push_back(complete_energy(*this, energy));
 }
 
 template<class ID>
-- 
2.43.0


From e9e9f175be33943cd7a6f23421776705522df5b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 12/67] fix: a refused generator must not stay in the model

---
 cppcore/src/Model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..8312f16 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -73,14 +73,14 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     site_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     hopping_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
-- 
2.43.0


From c6da6dfd08ce67038c6eec8ad7927e462cf36c0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 13/67] fix: refuse generated hoppings and sites which don't
 fit the system

---
 cppcore/src/system/StructureModifiers.cpp | 29 +++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 48e49c5..149bb4f 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -53,8 +53,16 @@ void apply(SiteGenerator const& g, System& s) {
     auto const new_positions = g.make(s);
     auto const norb = g.energy.rows();
     auto const nsites = new_positions.size();
+    if (new_positions.y.size() != nsites || new_positions.z.size() != nsites) {
+        throw std::runtime_error("When generating sites, the number of "
+                                 "x, y and z coordinates must be equal");
+    }
+
     s.compressed_sublattices.add(s.site_registry.id(g.name), norb, nsites);
     s.hopping_blocks.add_sites(nsites);
+    for (auto& boundary : s.boundaries) {
+        boundary.hopping_blocks.add_sites(nsites);
+    }
     s.positions = concat(s.positions, new_positions);
 }
 
@@ -62,6 +70,27 @@ void apply(HoppingGenerator const& g, System& s) {
     detail::remove_invalid(s);
 
     auto pairs = g.make(s);
+
+    // The energy matrix must fit the number of orbitals of all the sites that it connects
+    auto norb = ArrayXi(s.num_sites());
+    for (auto const& sub : s.compressed_sublattices) {
+        norb.segment(sub.sys_start(), sub.num_sites()).setConstant(sub.num_orbitals());
+    }
+    auto const check = [&](ArrayXi const& indices, idx_t size) {
+        for (auto i = idx_t{0}; i < indices.size(); ++i) {
+            if (indices[i] < 0 || indices[i] >= norb.size()) {
+                throw std::runtime_error("When generating hoppings, the `from` and `to` "
+                                         "indices must refer to existing sites");
+            }
+            if (norb[indices[i]] != size) {
+                throw std::runtime_error("When generating hoppings, the energy matrix must match "
+                                         "the number of orbitals of the connected sites");
+            }
+        }
+    };
+    check(pairs.from, g.energy.rows());
+    check(pairs.to, g.energy.cols());
+
     s.hopping_blocks.append(s.hopping_registry.id(g.name),
                             std::move(pairs.from), std::move(pairs.to));
 }
-- 
2.43.0


From a152245c7a04fdabc9af4d677e3a5eea38bc9465 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:45 +0000
Subject: [PATCH 14/67] fix: orbital indices of hoppings when generated sites
 have fewer orbitals

---
 .../hamiltonian/HamiltonianModifiers.hpp      | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..3d0cad0 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -160,29 +160,30 @@ void HamiltonianModifiers::apply_to_onsite(System const& system, Fn lambda) cons
  */
 class IndexTranslator {
 public:
-    /// A translator is specific to a system and hopping family -- the matrix dimensions
-    IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
-        : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
-
-    /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
+    IndexTranslator(System const& system) : ham_start(system.num_sites()) {
+        for (auto const& sub : system.compressed_sublattices) {
+            auto idx = sub.ham_start();
+            for (auto i = sub.sys_start(); i < sub.sys_end(); ++i) {
+                ham_start[i] = static_cast<storage_idx_t>(idx);
+                idx += sub.num_orbitals();
+            }
+        }
+    }
+
+    /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`
+    /// for hopping terms of the given size (`rows` x `cols`):
     ///     lambda(idx_t row, idx_t col, scalar_t value)
     /// where `row` and `col` are the Hamiltonian indices.
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
-    void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
+    void for_each(C const& coordinates, idx_t rows, idx_t cols,
+                  V const& hopping_buffer, F lambda) const {
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = idx_t{0}; i < rows; ++i) {
+            for (auto j = idx_t{0}; j < cols; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
-
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
-                        lambda(ham_row, ham_col, value);
+                        lambda(ham_start[coo.row] + i, ham_start[coo.col] + j, value);
                     }
                 }
             }
@@ -190,9 +191,7 @@ public:
     }
 
 private:
-    COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
+    ArrayXi ham_start; ///< the first Hamiltonian index of each site
 };
 
 /**
@@ -244,7 +243,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
@@ -261,12 +261,12 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Slow path: Apply modifiers and/or consider multiple orbitals which
     // require translating between site and Hamiltonian matrix indices.
+    auto const index_translator = IndexTranslator(system);
     for (auto const& block : system_or_boundary.hopping_blocks) {
         if (block.size() == 0) { continue; }
 
         auto const& hopping_energy = hopping_registry.energy(block.family_id());
         auto const hopping_name = hopping_registry.name(block.family_id());
-        auto const index_translator = IndexTranslator(system, hopping_energy);
 
         auto buffer = HoppingBuffer<scalar_t>(hopping_energy, block.size());
         for (auto const coo_slice : sliced(block.coordinates(), buffer.size)) {
@@ -283,7 +283,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
                                buffer.pos2.head(size), hopping_name);
             }
 
-            index_translator.for_each(coo_slice, buffer.hoppings, lambda);
+            index_translator.for_each(coo_slice, hopping_energy.rows(), hopping_energy.cols(),
+                                      buffer.hoppings, lambda);
         }
     }
 }
-- 
2.43.0


From f1a80110e6b0b6ba4e5afd6b2e753b03638ff633 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 15/67] fix: no partial or stale leads after a failed
 evaluation

---
 cppcore/src/leads/Leads.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..2d274dc 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -9,13 +9,12 @@ void Leads::create_attachment_area(Foundation& foundation) const {
 }
 
 void Leads::make_structure(Foundation const& foundation) {
-    if (!structures.empty()) {
-        return;
-    }
-
+    // Everything or nothing: one of the shapes may throw
+    auto new_structures = std::vector<leads::Structure>();
     for (auto const& spec : specs) {
-        structures.emplace_back(foundation, spec);
+        new_structures.emplace_back(foundation, spec);
     }
+    structures = std::move(new_structures);
 }
 
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
@@ -24,9 +23,12 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    // Everything or nothing: one of the modifiers may throw
+    auto new_hamiltonians = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        new_hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
     }
+    hamiltonians = std::move(new_hamiltonians);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From 2d54748c28f611f0d13e8a347035f70f0052741f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 16/67] fix: the lattice offset of a replaced shape must not
 accumulate

---
 cppcore/include/Model.hpp | 1 +
 cppcore/src/Model.cpp     | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..09d7ece 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -93,6 +93,7 @@ private:
 
 private:
     Lattice lattice;
+    Cartesian base_lattice_offset; ///< of the lattice as given, i.e. without any shape
     SiteRegistry site_registry;
     HoppingRegistry hopping_registry;
 
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 8312f16..7f722f2 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -7,6 +7,7 @@ namespace cpb {
 
 Model::Model(Lattice const& lattice)
     : lattice(lattice),
+      base_lattice_offset(lattice.get_offset()),
       site_registry(lattice.site_registry()),
       hopping_registry(lattice.hopping_registry()) {}
 
@@ -28,8 +29,9 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    // The offset of a previous shape must not accumulate
+    lattice.set_offset(base_lattice_offset + new_shape.lattice_offset);
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
-- 
2.43.0


From f999216898395ceb5818f450b8d87c26ae54c15a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 17/67] fix: a refused primitive must not stay in the model

---
 cppcore/src/Model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 7f722f2..191e035 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -12,12 +12,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
-- 
2.43.0


From be8bc958dbc7242c54baaf980c0b728dc7f6fccd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 18/67] fix: don't stay complex when the reason for it is gone

---
 cppcore/src/Model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 191e035..59331f3 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -214,6 +214,7 @@ void Model::clear_structure() {
 void Model::clear_hamiltonian() {
     _hamiltonian.reset();
     _leads.clear_hamiltonian();
+    complex_override = false;
 }
 
 } // namespace cpb
-- 
2.43.0


From 9fffa3606d4b37eaf1e82277f00832566f60d77b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 19/67] fix: clearing modifiers must clear what was evaluated
 with them

---
 cppcore/include/Model.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index 09d7ece..5e988aa 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers() { structure_modifiers.clear(); clear_structure(); }
+    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); clear_hamiltonian(); }
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
-- 
2.43.0


From 1e4995681f792864f5985de8a2d0e65f7a43231d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 20/67] fix: modifiers which ask for complex values only at a
 lead

---
 cppcore/src/Model.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 59331f3..9d8981b 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -121,7 +121,15 @@ Hamiltonian const& Model::hamiltonian() const {
 Leads const& Model::leads() const {
     system();
     hamiltonian();
-    _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    try {
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    } catch (ComplexOverride const&) {
+        // Only asked for complex values at the lead: the main Hamiltonian must match it
+        if (is_complex()) { throw; }
+        complex_override = true;
+        _hamiltonian = make_hamiltonian();
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    }
     return _leads;
 }
 
-- 
2.43.0


From 3ae3364c16e95cc43f975ffca3c061bc87ffa89e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:43:10 +0000
Subject: [PATCH 21/67] fix: clearing structure modifiers must remove their
 generated families

---
 cppcore/include/Model.hpp | 2 +-
 cppcore/src/Model.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index 5e988aa..75b09a8 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,7 +78,7 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); clear_structure(); }
+    void clear_structure_modifiers();
     void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); clear_hamiltonian(); }
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 9d8981b..92a321e 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -149,6 +149,14 @@ std::string Model::report() {
                        num_sites, system_build_time, nnz, hamiltonian_build_time);
 }
 
+void Model::clear_structure_modifiers() {
+    structure_modifiers.clear();
+    // The families of the generators are gone as well
+    site_registry = lattice.site_registry();
+    hopping_registry = lattice.hopping_registry();
+    clear_structure();
+}
+
 std::shared_ptr<System> Model::make_system() const {
     auto foundation = shape ? Foundation(lattice, shape)
                             : Foundation(lattice, primitive);
-- 
2.43.0


From dd6e701e887c63a21460151a5c56641f31d95a62 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 22/67] fix: lead shapes which are outside of the structure

---
 cppcore/src/leads/Spec.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index 14951bd..c1ab989 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -64,6 +64,13 @@ SliceIndex3D attachment_slice(Foundation const& foundation, Spec const& spec) {
     auto const end = (step > 0) ? size[spec.axis] : -1;
 
     auto slice_index = shape_slice(foundation, spec.shape);
+    for (auto i = 0; i < slice_index.ndims(); ++i) {
+        if (i != spec.axis && slice_index[i].start >= slice_index[i].end) {
+            throw std::runtime_error("Can't attach lead: completely misses main structure");
+        }
+    }
+
+    slice_index[spec.axis] = start;
     auto slice = foundation[slice_index];
 
     // The first index on the lead's axis where there are any existing valid sites
@@ -91,7 +98,9 @@ Junction::Junction(Foundation const& foundation, Spec const& spec)
     // The lead's shape.contains() should be invoked in the center of the shape slice
     auto si3d = shape_slice(foundation, spec.shape);
     auto const si = si3d[spec.axis];
-    si3d[spec.axis] = (si.start + si.end) / 2;
+    // (it's not possible to go outside of the foundation even if that's where the shape is)
+    auto const last = foundation.get_spatial_size()[spec.axis] - 1;
+    si3d[spec.axis] = std::min(std::max((si.start + si.end) / 2, 0), last);
     auto const slice = foundation[si3d];
     is_valid = spec.shape.contains(slice.positions());
 
-- 
2.43.0


From 323f94fd2f56e1faaea9bbf151fbb9563f31c074 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 23/67] fix: the attachment of a lead must not alter the
 junctions of previous leads

---
 cppcore/include/leads/Leads.hpp     |  5 +++--
 cppcore/include/leads/Spec.hpp      | 10 +++++-----
 cppcore/include/leads/Structure.hpp |  2 +-
 cppcore/src/leads/Leads.cpp         |  9 +++++----
 cppcore/src/leads/Spec.cpp          |  7 +++++--
 cppcore/src/leads/Structure.cpp     |  4 ++--
 6 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/cppcore/include/leads/Leads.hpp b/cppcore/include/leads/Leads.hpp
index be618c0..e3f7260 100644
--- a/cppcore/include/leads/Leads.hpp
+++ b/cppcore/include/leads/Leads.hpp
@@ -29,6 +29,7 @@ public:
  */
 class Leads {
     std::vector<leads::Spec> specs;
+    std::vector<leads::detail::Junction> junctions; ///< must not be altered by subsequent leads
     std::vector<leads::Structure> structures;
     std::vector<leads::HamiltonianPair> hamiltonians;
 
@@ -43,9 +44,9 @@ public:
     void add(int direction, Shape const& shape) { specs.emplace_back(direction, shape); }
 
     /// Modify the `foundation` so that all leads can be attached
-    void create_attachment_area(Foundation& foundation) const;
+    void create_attachment_area(Foundation& foundation);
 
-    /// Create the structure of each lead
+    /// Create the structure of each lead (requires the attachment area)
     void make_structure(Foundation const& foundation);
 
     /// Create a Hamiltonian pair for each lead
diff --git a/cppcore/include/leads/Spec.hpp b/cppcore/include/leads/Spec.hpp
index f1e61a8..5f928e4 100644
--- a/cppcore/include/leads/Spec.hpp
+++ b/cppcore/include/leads/Spec.hpp
@@ -26,11 +26,6 @@ struct Spec {
     Spec(int direction, Shape const& shape);
 };
 
-/**
- Create a lead attachment area in the foundation
- */
-void create_attachment_area(Foundation& foundation, Spec const& spec);
-
 namespace detail {
     /// Return the slice of the foundation which contains the shape
     SliceIndex3D shape_slice(Foundation const& foundation, Shape const& shape);
@@ -46,4 +41,9 @@ namespace detail {
     };
 } // namespace detail
 
+/**
+ Create a lead attachment area in the foundation and return the junction with the lead
+ */
+detail::Junction create_attachment_area(Foundation& foundation, Spec const& spec);
+
 }} // namespace cpb::leads
diff --git a/cppcore/include/leads/Structure.hpp b/cppcore/include/leads/Structure.hpp
index 33409c2..e62e589 100644
--- a/cppcore/include/leads/Structure.hpp
+++ b/cppcore/include/leads/Structure.hpp
@@ -13,7 +13,7 @@ struct Structure {
     std::vector<int> indices; ///< map from lead Hamiltonian indices to main system indices
     System system; ///< description of lead sites and boundaries
 
-    Structure(Foundation const& foundation, Spec const& spec);
+    Structure(Foundation const& foundation, Spec const& spec, detail::Junction const& junction);
 
     /// Return the lead index corresponding to the main system Hamiltonian index
     int lead_index(int system_index) const {
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 2d274dc..8c34c2f 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -2,17 +2,18 @@
 
 namespace cpb {
 
-void Leads::create_attachment_area(Foundation& foundation) const {
+void Leads::create_attachment_area(Foundation& foundation) {
+    junctions.clear();
     for (auto const& spec : specs) {
-        leads::create_attachment_area(foundation, spec);
+        junctions.push_back(leads::create_attachment_area(foundation, spec));
     }
 }
 
 void Leads::make_structure(Foundation const& foundation) {
     // Everything or nothing: one of the shapes may throw
     auto new_structures = std::vector<leads::Structure>();
-    for (auto const& spec : specs) {
-        new_structures.emplace_back(foundation, spec);
+    for (auto i = size_t{0}; i < specs.size(); ++i) {
+        new_structures.emplace_back(foundation, specs[i], junctions[i]);
     }
     structures = std::move(new_structures);
 }
diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index c1ab989..9283264 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -8,12 +8,13 @@ Spec::Spec(int direction, Shape const& shape)
       sign(direction != 0 ? direction / abs(direction) : 0),
       shape(shape) {}
 
-void create_attachment_area(Foundation& foundation, Spec const& spec) {
+detail::Junction create_attachment_area(Foundation& foundation, Spec const& spec) {
     auto const size = foundation.get_spatial_size();
     auto const step = -spec.sign;
     auto const end = (step > 0) ? size[spec.axis] : -1;
 
-    auto junction = detail::Junction(foundation, spec);
+    auto const original_junction = detail::Junction(foundation, spec);
+    auto junction = original_junction;
     auto slice = foundation[junction.slice_index];
 
     // Fill in the foundation until all lead sites can be connected to foundation sites
@@ -39,6 +40,8 @@ void create_attachment_area(Foundation& foundation, Spec const& spec) {
     if (slice[spec.axis] == end) {
         throw std::runtime_error("Can't attach lead: partially misses main structure");
     }
+
+    return original_junction;
 }
 
 namespace detail {
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index f86ec26..5a7710b 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -3,14 +3,14 @@
 
 namespace cpb { namespace leads {
 
-Structure::Structure(Foundation const& foundation, Spec const& lead)
+Structure::Structure(Foundation const& foundation, Spec const& lead,
+                     detail::Junction const& junction)
     : system(foundation.get_lattice().site_registry(),
              foundation.get_lattice().hopping_registry()) {
     auto const& lattice = foundation.get_lattice();
     auto const& finalized_indices = foundation.get_finalized_indices();
 
     auto const shift = Cartesian(static_cast<float>(lead.sign) * lattice.vector(lead.axis));
-    auto const junction = detail::Junction(foundation, lead);
     auto const slice = foundation[junction.slice_index];
 
     indices = [&]{
-- 
2.43.0


From d0edbd630ac3e1d2d0d1f7c1dc3a5d62ae2c4cee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 24/67] fix: conjugate hoppings between the unit cells of a
 lead

---
 cppcore/include/leads/HamiltonianPair.hpp | 15 +++++++++++++++
 cppcore/src/leads/Structure.cpp           | 20 +++++++++++++++-----
 pybinding/leads.py                        |  8 +++++---
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 6f2c1ad..048e94c 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -24,10 +24,25 @@ namespace detail {
         matrix.resize(size, size);
         matrix.reserve(ArrayXi::Constant(size, lattice.max_hoppings()));
 
+        // Hoppings from the outer unit cell (this one) to the inner one
         modifiers.apply_to_hoppings<scalar_t>(system, 0, [&](idx_t i, idx_t j, scalar_t hopping) {
             matrix.insert(i, j) = hopping;
         });
 
+        // Hoppings from the inner unit cell to the outer one
+        if (system.boundaries.size() > 1) {
+            auto inner_system = system;
+            for (auto i = idx_t{0}; i < inner_system.num_sites(); ++i) {
+                auto const position = Cartesian(system.positions[i]);
+                inner_system.positions[i] = position + system.boundaries[1].shift;
+            }
+            modifiers.apply_to_hoppings<scalar_t>(
+                inner_system, 1, [&](idx_t i, idx_t j, scalar_t hopping) {
+                    matrix.insert(j, i) = num::conjugate(hopping);
+                }
+            );
+        }
+
         h1->makeCompressed();
         cpb::detail::throw_if_invalid(*h1);
 
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index 5a7710b..e336eda 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -49,9 +49,11 @@ Structure::Structure(Foundation const& foundation, Spec const& lead,
         system.compressed_sublattices.verify(size);
     }
 
-    system.boundaries.push_back([&]{
+    /*boundaries*/ {
         auto const size = static_cast<int>(indices.size());
-        auto hopping_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+        auto const name_map = system.hopping_registry.name_map();
+        auto hopping_blocks = HoppingBlocks(size, name_map);
+        auto conjugate_blocks = HoppingBlocks(size, name_map);
 
         for (auto const& site : slice) {
             if (!junction.is_valid[site.get_slice_idx()]) {
@@ -67,14 +69,22 @@ Structure::Structure(Foundation const& foundation, Spec const& lead,
             auto const index = lead_index(finalized_indices[site]);
             shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
                 auto const neighbor_index = lead_index(finalized_indices[neighbor]);
-                if (neighbor_index >= 0) {
+                if (neighbor_index < 0) { return; }
+
+                // The hopping energies are given in the direction of the non-conjugate hopping
+                if (!hopping.is_conjugate) {
                     hopping_blocks.add(hopping.family_id, index, neighbor_index);
+                } else {
+                    conjugate_blocks.add(hopping.family_id, neighbor_index, index);
                 }
             });
         }
 
-        return System::Boundary{hopping_blocks, shift};
-    }());
+        system.boundaries.push_back({hopping_blocks, shift});
+        if (conjugate_blocks.nnz() != 0) {
+            system.boundaries.push_back({conjugate_blocks, -shift});
+        }
+    }
 }
 
 }} // namespace cpb::leads
diff --git a/pybinding/leads.py b/pybinding/leads.py
index 635cb35..9ef61d2 100644
--- a/pybinding/leads.py
+++ b/pybinding/leads.py
@@ -98,7 +98,8 @@ class Lead:
         sub = self.system.sublattices
         inner_hoppings = self.system.hoppings.tocoo()
         boundary = self.system.boundaries[0]
-        outer_hoppings = boundary.hoppings.tocoo()
+        # There may be a second boundary for hoppings in the opposite direction
+        outer_hoppings = [(b.hoppings.tocoo(), b.shift) for b in self.system.boundaries]
 
         props = structure_plot_properties(**kwargs)
         props['site'].setdefault('radius', self.system.lattice.site_radius_for_plot())
@@ -108,8 +109,9 @@ class Lead:
             offset = i * boundary.shift
             plot_sites(pos, sub, offset=offset, blend=blend, **props['site'])
             plot_hoppings(pos, inner_hoppings, offset=offset, blend=blend, **props['hopping'])
-            plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift, blend=blend,
-                          boundary=(1, boundary.shift), **props['boundary'])
+            for (hoppings, shift), base in zip(outer_hoppings, (offset - boundary.shift, offset)):
+                plot_hoppings(pos, hoppings, offset=base, blend=blend,
+                              boundary=(1, shift), **props['boundary'])
 
         label_pos = _center(pos, lead_length * boundary.shift * 1.5)
         pltutils.annotate_box("lead {}".format(self.index), label_pos, bbox=dict(alpha=0.7))
-- 
2.43.0


From a6e105d1e5412b024448f4521d3591dc7a271811 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 25/67] fix: renumber the sites connected to leads when a
 modifier removes sites

---
 cppcore/include/leads/Leads.hpp |  3 +++
 cppcore/src/Model.cpp           |  8 +++++++-
 cppcore/src/leads/Leads.cpp     | 20 ++++++++++++++++++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/leads/Leads.hpp b/cppcore/include/leads/Leads.hpp
index e3f7260..d54f3e2 100644
--- a/cppcore/include/leads/Leads.hpp
+++ b/cppcore/include/leads/Leads.hpp
@@ -49,6 +49,9 @@ public:
     /// Create the structure of each lead (requires the attachment area)
     void make_structure(Foundation const& foundation);
 
+    /// The main system is about to remove its invalid sites: renumber those connected to leads
+    void filter(ArrayX<bool> const& is_valid);
+
     /// Create a Hamiltonian pair for each lead
     void make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                           bool is_double, bool is_complex);
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 92a321e..3082143 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -182,11 +182,17 @@ std::shared_ptr<System> Model::make_system() const {
         detail::populate_boundaries(*sys, foundation, symmetry);
     }
 
+    auto const remove_invalid = [&] {
+        _leads.filter(sys->is_valid);
+        detail::remove_invalid(*sys);
+    };
+
     for (auto const& modifier : system_modifiers) {
+        if (is_generator(modifier)) { remove_invalid(); }
         apply(modifier, *sys);
     }
 
-    detail::remove_invalid(*sys);
+    remove_invalid();
 
     if (sys->num_sites() == 0) { throw std::runtime_error{"Impossible system: 0 sites"}; }
 
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 8c34c2f..7cc6063 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -18,6 +18,26 @@ void Leads::make_structure(Foundation const& foundation) {
     structures = std::move(new_structures);
 }
 
+void Leads::filter(ArrayX<bool> const& is_valid) {
+    if (is_valid.size() == 0 || structures.empty()) { return; }
+
+    auto new_indices = ArrayXi(is_valid.size());
+    auto num_valid = 0;
+    for (auto i = idx_t{0}; i < is_valid.size(); ++i) {
+        new_indices[i] = is_valid[i] ? num_valid++ : -1;
+    }
+
+    for (auto& structure : structures) {
+        for (auto& index : structure.indices) {
+            index = new_indices[index];
+            if (index < 0) {
+                throw std::runtime_error("Can't attach lead: a modifier removed "
+                                         "the sites which connect to it");
+            }
+        }
+    }
+}
+
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                              bool is_double, bool is_complex) {
     if (!hamiltonians.empty()) {
-- 
2.43.0


From 74d5c47228958b43d13cad3f9df85680de5c7659 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:10:20 +0000
Subject: [PATCH 26/67] fix: a refused anonymous hopping must not leave its
 family behind

---
 cppcore/src/Lattice.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 5e09880..3d5e391 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,6 +105,7 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
+    auto const num_families = hoppings.size();
     auto const hopping_name = [&] {
         // Look for an existing hopping ID with the same energy
         auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
@@ -121,7 +122,13 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         }
     }();
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    } catch (...) {
+        // A refused hopping must not leave its new anonymous family behind
+        if (hoppings.size() != num_families) { hoppings.erase(hopping_name); }
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From d42630352756c117a106c6b7335a60de0e67e474 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:14:38 +0000
Subject: [PATCH 27/67] fix: refuse inconsistent serialized site and hopping
 containers

---
 cppcore/src/system/CompressedSublattices.cpp |  5 +++++
 cppcore/src/system/HoppingBlocks.cpp         | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/cppcore/src/system/CompressedSublattices.cpp b/cppcore/src/system/CompressedSublattices.cpp
index 00e3804..f0445d7 100644
--- a/cppcore/src/system/CompressedSublattices.cpp
+++ b/cppcore/src/system/CompressedSublattices.cpp
@@ -5,6 +5,11 @@ namespace cpb {
 CompressedSublattices::CompressedSublattices(ArrayXi const& alias_ids, ArrayXi const& site_counts,
                                              ArrayXi const& orbital_counts)
     : data(alias_ids.size()) {
+    if (site_counts.size() != alias_ids.size() || orbital_counts.size() != alias_ids.size()) {
+        throw std::runtime_error("CompressedSublattices: inconsistent data, "
+                                 "all arrays must have the same size");
+    }
+
     for (auto i = size_t{0}; i < data.size(); ++i) {
         data[i].id = SiteID{alias_ids[i]};
         data[i].num_sites = site_counts[i];
diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 86b9ba6..a80aa14 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -4,13 +4,24 @@ namespace cpb {
 
 HoppingBlocks::HoppingBlocks(idx_t num_sites, SerializedBlocks const& data, NameMap name_map)
     : num_sites(num_sites), name_map(std::move(name_map)) {
+    auto const is_valid_index = [num_sites](idx_t i) { return 0 <= i && i < num_sites; };
+
     blocks.reserve(data.size());
     for (auto const& pair : data) {
         auto const size = pair.first.size();
+        if (pair.second.size() != size) {
+            throw std::runtime_error("HoppingBlocks: inconsistent data, the number of "
+                                     "row and column indices must be equal");
+        }
+
         auto block = std::vector<COO>(static_cast<size_t>(size));
         for (auto i = 0; i < size; ++i) {
             block[i].row = pair.first[i];
             block[i].col = pair.second[i];
+            if (!is_valid_index(block[i].row) || !is_valid_index(block[i].col)) {
+                throw std::runtime_error("HoppingBlocks: inconsistent data, "
+                                         "the site index is out of range");
+            }
         }
         blocks.push_back(std::move(block));
     }
-- 
2.43.0


From 24e514838fb8a89c17153b8da2809a7028b4c37d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:29:56 +0000
Subject: [PATCH 28/67] fix: a nearest-site query without candidate sites is
 refused

---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..fc30f62 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("System::find_nearest(): there are no sites to choose from");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 4e8844ef7108a9aad0dbcb639a2b5ac9f6527c06 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:17:27 +0000
Subject: [PATCH 29/67] fix: KPM reordering of Hamiltonians with disconnected
 parts

The breadth-first reordering only reached indices connected to the first target
and then read past the end of the index queue.
---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..8d476bc 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -102,6 +102,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     auto slice_border_indices = std::vector<storage_idx_t>();
     slice_border_indices.push_back(1);
 
+    // Used to find the next index if the Hamiltonian has parts which are not connected
+    auto next_unmapped = storage_idx_t{0};
+
     // Fill the reordered matrix row by row
     auto const h_view = sparse::make_loop(h);
     for (auto h2_row = 0; h2_row < system_size; ++h2_row) {
@@ -138,6 +141,12 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
 
         // Reached the end of a slice
         if (h2_row == slice_border_indices.back() - 1) {
+            // All of the connected indices are done but there's still a disconnected part
+            if (h2_row + 1 == static_cast<idx_t>(index_queue.size()) && h2_row + 1 < system_size) {
+                while (reorder_map[next_unmapped] >= 0) { ++next_unmapped; }
+                reorder_map[next_unmapped] = static_cast<storage_idx_t>(index_queue.size());
+                index_queue.push_back(next_unmapped);
+            }
             slice_border_indices.push_back(static_cast<storage_idx_t>(index_queue.size()));
         }
     }
-- 
2.43.0


From 9d279db113fe4fe0c72205a8c103044f7cb69c1f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:17:27 +0000
Subject: [PATCH 30/67] fix: KPM with an empty ELLPACK matrix

The ELL algorithms handle the first and last element of each row separately
which went out of bounds for a matrix without any elements.
---
 cppcore/include/numeric/ellmatrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 482bb37..fdb48c3 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -63,8 +63,10 @@ inline EllConstRef<scalar_t> ellref(EllMatrix<scalar_t> const& m) {
 /// Convert an Eigen CSR matrix to ELLPACK
 template<class scalar_t>
 num::EllMatrix<scalar_t> csr_to_ell(SparseMatrixX<scalar_t> const& csr) {
-    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(),
-                                        sparse::max_nnz_per_row(csr));
+    // At least one element per row is needed, even if it's zero (the algorithms which use
+    // the ELLPACK format treat the first and the last element of each row in a special way)
+    auto const nnz_per_row = std::max<idx_t>(1, sparse::max_nnz_per_row(csr));
+    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(), nnz_per_row);
     auto const loop = sparse::make_loop(csr);
     for (auto row = 0; row < csr.rows(); ++row) {
         auto n = 0;
-- 
2.43.0


From 203b7696682640c9929148f46e97f44b967b3472 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:22:09 +0000
Subject: [PATCH 31/67] fix: KPM Green's function accepted an index equal to
 the size of the Hamiltonian

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..dba2f9d 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -102,7 +102,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -115,9 +115,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From 31b4302ac1aabd5c45ac35be08c95d31153bfeac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:22:09 +0000
Subject: [PATCH 32/67] fix: KPM spatial LDOS of a shape without any sites read
 out of bounds

---
 cppcore/src/kpm/Core.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index c7b5ae4..8c21c02 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -56,6 +56,8 @@ ArrayXcd Core::moments(idx_t num_moments, VectorXcd const& alpha, VectorXcd cons
 }
 
 ArrayXXdCM Core::ldos(std::vector<idx_t> const& idx, ArrayXd const& energy, double broadening) {
+    if (idx.empty()) { return ArrayXXdCM(energy.size(), 0); }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
     auto const num_indices = static_cast<idx_t>(idx.size());
-- 
2.43.0


From 9a8e31c7a3f7635ab6500bb0d372be78e274c5c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:22:09 +0000
Subject: [PATCH 33/67] fix: KPM Green's function with an empty list of columns
 read out of bounds

---
 cppcore/src/kpm/Core.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index 8c21c02..3fd16a7 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -97,7 +97,8 @@ ArrayXcd Core::greens(idx_t row, idx_t col, ArrayXd const& energy, double broade
 
 std::vector<ArrayXcd> Core::greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                           ArrayXd const& energy, double broadening) {
-    assert(!cols.empty());
+    if (cols.empty()) { return {}; }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
 
-- 
2.43.0


From fd449d8095be6f5621e4b880b998508d991633dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:00 +0000
Subject: [PATCH 34/67] fix: KPM report before the first calculation read
 uninitialised statistics

---
 cppcore/include/kpm/Stats.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cppcore/include/kpm/Stats.hpp b/cppcore/include/kpm/Stats.hpp
index db7344b..5ab8c5e 100644
--- a/cppcore/include/kpm/Stats.hpp
+++ b/cppcore/include/kpm/Stats.hpp
@@ -17,17 +17,17 @@ class OptimizedHamiltonian;
  Stats of the KPM calculation
  */
 struct Stats {
-    idx_t num_moments;
-    bool uses_full_system;
+    idx_t num_moments = 0;
+    bool uses_full_system = true;
 
-    size_t nnz; ///< original number of processed non-zero matrix elements (over all iterations)
-    size_t opt_nnz; ///< same as above, but with optimizations applied (if any)
-    size_t vec; ///< number of elements in a single KPM vector times the number of moments
-    size_t opt_vec; ///< same as above, but with optimizations applied (if any)
+    size_t nnz = 0; ///< original number of processed non-zero matrix elements (over all iterations)
+    size_t opt_nnz = 0; ///< same as above, but with optimizations applied (if any)
+    size_t vec = 0; ///< number of elements in a single KPM vector times the number of moments
+    size_t opt_vec = 0; ///< same as above, but with optimizations applied (if any)
     double multiplier = 1; ///< account for any repeated calculations
 
-    size_t matrix_memory; ///< memory used by the Hamiltonian matrix
-    size_t vector_memory; ///< memory used by a single KPM vector
+    size_t matrix_memory = 0; ///< memory used by the Hamiltonian matrix
+    size_t vector_memory = 0; ///< memory used by a single KPM vector
 
     Chrono hamiltonian_timer;
     Chrono moments_timer;
-- 
2.43.0


From b2deb8bfee3f2080d5082709413ecdb5773e4b38 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:59:01 +0000
Subject: [PATCH 35/67] fix: Lanczos bounds never converged for a spectrum with
 one end at zero

---
 cppcore/include/compute/lanczos.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/compute/lanczos.hpp b/cppcore/include/compute/lanczos.hpp
index 5cf29b1..d3c6964 100644
--- a/cppcore/include/compute/lanczos.hpp
+++ b/cppcore/include/compute/lanczos.hpp
@@ -139,8 +139,10 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
                                                                   eigen_cast<ArrayX>(beta));
         auto const min = eigenvalues.minCoeff();
         auto const max = eigenvalues.maxCoeff();
-        auto const is_converged_min = abs((previous_min - min) / min) < precision;
-        auto const is_converged_max = abs((previous_max - max) / max) < precision;
+        // Relative to the largest magnitude because one of the two may be zero (up to rounding)
+        auto const tolerance = precision * std::max(std::abs(min), std::abs(max));
+        auto const is_converged_min = std::abs(previous_min - min) < tolerance;
+        auto const is_converged_max = std::abs(previous_max - max) < tolerance;
 
         if (is_converged_min && is_converged_max) {
             return {min, max, i};
-- 
2.43.0


From 044ffa761fc1c4c2f341908d9d1fc5bb84f5a770 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 36/67] fix: KPM conductivity dereferenced null for directions
 with one valid letter

---
 cppcore/src/KPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index dba2f9d..082bd03 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -132,7 +132,7 @@ ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broaden
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
     auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    if (direction.size() != 2 || direction.find_first_not_of(xyz) != std::string::npos) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From 15a3728c56d78b62f690dbab7bbcaa67ec3c9742 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 37/67] fix: a solver given a model which fails to evaluate
 returned stale results under the new model

---
 cppcore/src/solver/Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..2efec3d 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,8 +49,8 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
+    model = new_model.eval(); // may throw: keep the old model and its results in that case
     is_solved = false;
-    model = new_model;
 
     if (strategy) {// try to assign a new Hamiltonian to the existing Solver strategy
         bool success = strategy->change_hamiltonian(model.hamiltonian());
-- 
2.43.0


From fb82ef96051987e9b1d436ec9b99c1e04a267639 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:23:22 +0000
Subject: [PATCH 38/67] fix: size of a work queue was read without its lock

---
 cppcore/include/detail/thread.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index a7cc7d2..990119c 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -72,11 +72,14 @@ public:
         consumption_cv.notify_one();
     }
 
-    std::size_t size() const { return q.size(); }
+    std::size_t size() const {
+        std::unique_lock<std::mutex> lk(m);
+        return q.size();
+    }
 
 private:
     std::queue<T> q;
-    std::mutex m;
+    mutable std::mutex m;
     std::condition_variable production_cv;
     std::condition_variable consumption_cv;
 
-- 
2.43.0


From cb22cc59f18ca6c25e97bb013964982d25c72f92 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 39/67] fix: KPM progress exceeded the total when the last
 batch was not full

---
 cppcore/src/kpm/default/Compute.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/kpm/default/Compute.cpp b/cppcore/src/kpm/default/Compute.cpp
index 2529bdb..96f58ef 100644
--- a/cppcore/src/kpm/default/Compute.cpp
+++ b/cppcore/src/kpm/default/Compute.cpp
@@ -66,11 +66,14 @@ struct SelectAlgorithm {
         compute.progress_start(m->num_vectors);
 
         for (auto i = 0; i < num_batches; ++i) {
-            pool.add([&]() {
+            // the last batch may go past the requested number of vectors
+            auto const progress = std::min(batch_size, m->num_vectors - i * batch_size);
+
+            pool.add([&, progress]() {
                 auto collect = BatchDiagonalCollector<scalar_t>(m->num_moments, batch_size);
                 auto const idx = with<BatchDiagonalCollector>(collect);
                 m->add(collect.moments, idx);
-                compute.progress_update(batch_size, m->num_vectors);
+                compute.progress_update(progress, m->num_vectors);
             });
         }
 
-- 
2.43.0


From 4cf3b987a43130fd4862326beae6544d2fd798e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 40/67] fix: attach_lead computed the absolute value of the
 smallest int (undefined)

---
 cppcore/src/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 3082143..b267622 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -45,7 +45,7 @@ void Model::attach_lead(int direction, Shape const& shape) {
         throw std::logic_error("Lead direction must be one of: 1, 2, 3, -1, -2, -3");
     } else if (lattice.ndim() == 1) {
         throw std::logic_error("Attaching leads to 1D lattices is not supported");
-    } else if (std::abs(direction) > lattice.ndim()) {
+    } else if (direction > lattice.ndim() || direction < -lattice.ndim()) {
         throw std::logic_error(fmt::format("Direction {} is not valid for a {}D lattice",
                                            direction, lattice.ndim()));
     }
-- 
2.43.0


From 4c6bc19a92a92fc85382084c2ee292c50d6113c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 41/67] fix: huge relative indices of hoppings overflowed the
 cell indices

---
 cppcore/src/Lattice.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 3d5e391..51e9162 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -75,6 +75,11 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         );
     }
 
+    constexpr auto max_index = 1 << 28; // leaves some room for calculations with `int`
+    if ((relative_index.array() > max_index).any() || (relative_index.array() < -max_index).any()) {
+        throw std::logic_error("The relative index of a hopping is too large.");
+    }
+
     auto const& from = sublattice(from_sub);
     auto const& to = sublattice(to_sub);
     auto const& hop_matrix = hopping_family(hopping_family_name).energy;
-- 
2.43.0


From 48549ddd80006b2fa49fd6520f0214343a7c1c93 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 42/67] fix: infinite or huge symmetry lengths were converted
 to int (undefined)

---
 cppcore/src/system/Symmetry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index e754e06..a893e56 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -27,8 +27,12 @@ SymmetryArea TranslationalSymmetry::area(Foundation const& foundation) const {
 
         // number of lattice sites in one period length
         auto const num_sites = [&]{
-            auto const n = static_cast<int>(std::round(length[i] / lattice.vector(i).norm()));
-            return (n > 0) ? n : 1;
+            auto const n = std::round(length[i] / lattice.vector(i).norm());
+            if (!(n <= float{1 << 28})) { // the number of unit cells must fit into `int`
+                throw std::runtime_error("The length of the translational symmetry is not finite "
+                                         "or it is too large");
+            }
+            return (n > 0) ? static_cast<int>(n) : 1;
         }();
 
         // left and right borders of the periodic cell
-- 
2.43.0


From f6df8a78262e4f24167a9f54d7f0b7e50388a290 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 43/67] fix: shapes with non-finite, huge or no vertices
 overflowed the bounds of the foundation

---
 cppcore/src/system/Foundation.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index a13f49c..c6c330f 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -3,12 +3,24 @@
 
 namespace cpb { namespace detail {
 
+namespace {
+    /// The indices of unit cells must leave some room for calculations with `int`
+    constexpr auto max_cell_index = float{1 << 28};
+} // anonymous namespace
+
 std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice) {
     Array3i lower_bound = Array3i::Constant(std::numeric_limits<int>::max());
     Array3i upper_bound = Array3i::Constant(std::numeric_limits<int>::min());
+    if (shape.vertices.empty()) {
+        throw std::runtime_error("The bounding box of a shape must have at least one vertex");
+    }
     for (auto const& point : shape.vertices) {
         // Translate Cartesian coordinates `point` into lattice vector coordinates `v`
-        Array3i const v = lattice.translate_coordinates(point).cast<int>();
+        auto const coordinates = lattice.translate_coordinates(point);
+        if (!(coordinates.array().abs() <= max_cell_index).all()) { // also false for NaN
+            throw std::runtime_error("The bounding box of a shape is not finite or it is too large");
+        }
+        Array3i const v = coordinates.cast<int>();
         lower_bound = (v < lower_bound).select(v, lower_bound);
         upper_bound = (v > upper_bound).select(v, upper_bound);
     }
@@ -24,6 +36,9 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
         auto const origin = lattice.calc_position(Index3D::Zero(), pair.first);
         for (auto const& point : shape.vertices) {
             auto const v = lattice.translate_coordinates(point - origin);
+            if (!(v.array().abs() <= max_cell_index).all()) {
+                throw std::runtime_error("A sublattice is too far away from its unit cell");
+            }
             for (auto i = 0; i < ndim; ++i) {
                 lower_bound[i] = std::min(lower_bound[i], static_cast<int>(std::ceil(v[i] - 0.01f)));
                 upper_bound[i] = std::max(upper_bound[i], static_cast<int>(std::floor(v[i] + 0.01f)));
@@ -38,6 +53,9 @@ CartesianArray generate_positions(Cartesian origin, Index3D size, Lattice const&
     // The nested loops look messy, but it's the fastest way to calculate all the positions
     // because the intermediate a, b, c positions are reused.
     auto const nsub = lattice.nsub();
+    if (size.cast<double>().prod() * nsub > std::numeric_limits<storage_idx_t>::max()) {
+        throw std::runtime_error("The system is too large: there are too many sites");
+    }
     auto const num_sites = size.prod() * nsub;
     auto const unit_cell = lattice.optimized_unit_cell();
 
-- 
2.43.0


From 48349c034bdc039a3df97adb8b422faf94330ada Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:38:58 +0000
Subject: [PATCH 44/67] fix: restore the end points of lines, as asserted by
 tests/test_shape.py and tests/test_leads.py (reverts 3623b8e)

---
 cppcore/src/system/Shape.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index b759722..961151e 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -32,11 +32,13 @@ ArrayX<bool> is_acute_angle(Cartesian a, Cartesian b, CartesianArrayConstRef c)
     auto const bc_y = ArrayXf{c.y() - b.y()};
     auto const bc_z = ArrayXf{c.z() - b.z()};
 
-    // The sign of the dot product is the sign of the cosine between the two vectors. Don't divide
-    // by the lengths: the cosine is not defined (NaN) for a point which is exactly at the vertex.
+    // Compute the cosine between the two vectors based on the dot product
     auto const ba_dot_bc = ba.x() * bc_x + ba.y() * bc_y + ba.z() * bc_z;
+    auto const ba_length = ba.norm();
+    auto const bc_length = sqrt(bc_x.cwiseAbs2() + bc_y.cwiseAbs2() + bc_z.cwiseAbs2());
+    auto const cos_theta = ba_dot_bc / (ba_length * bc_length);
 
-    return ba_dot_bc >= 0; // acute angle
+    return cos_theta >= 0; // acute angle
 };
 
 WithinPolygon::WithinPolygon(Shape::Vertices const& vertices)
-- 
2.43.0


From 82ef54bede5ed525df3faf567e1252b3875d6a66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:54:30 +0000
Subject: [PATCH 45/67] fix: a Hamiltonian matrix handed out by a model was
 left dangling when the model changed

---
 cppmodule/src/model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppmodule/src/model.cpp b/cppmodule/src/model.cpp
index 1af9ce1..de7fc66 100644
--- a/cppmodule/src/model.cpp
+++ b/cppmodule/src/model.cpp
@@ -26,8 +26,10 @@ void wrap_model(py::module& m) {
         .def_property_readonly("lattice", &Model::get_lattice)
         .def_property_readonly("system", &Model::system)
         .def_property_readonly("raw_hamiltonian", &Model::hamiltonian)
-        .def_property_readonly("hamiltonian", [](Model const& self) {
-            return self.hamiltonian().csrref();
+        .def_property_readonly("hamiltonian", [](Model const& self) -> py::object {
+            // The model drops its Hamiltonian as soon as anything changes, but the matrix must
+            // remain valid: it keeps alive a copy of the Hamiltonian (which shares the data).
+            return py::cast(Hamiltonian(self.hamiltonian())).attr("csrref");
         })
         .def_property_readonly("leads", &Model::leads)
         .def("eval", &Model::eval)
-- 
2.43.0


From 91c5600c9b0b9fc5e4fa4fd1bdb081f743af0f57 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:54:30 +0000
Subject: [PATCH 46/67] fix: the hopping terms of a lattice were left dangling
 when another hopping was added

---
 cppmodule/src/lattice.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppmodule/src/lattice.cpp b/cppmodule/src/lattice.cpp
index 2ff6bed..4bf5939 100644
--- a/cppmodule/src/lattice.cpp
+++ b/cppmodule/src/lattice.cpp
@@ -37,7 +37,10 @@ void wrap_lattice(py::module& m) {
     py::class_<HF>(m, "HoppingFamily")
         .def_readonly("energy", &HF::energy, "Hopping matrix shared by all terms in this family")
         .def_readonly("family_id", &HF::family_id, "Different for each family")
-        .def_readonly("terms", &HF::terms, "List of :class:`~_pybinding.HoppingTerm`")
+        .def_property_readonly("terms", [](HF const& f) {
+            // Copies: references to the elements would dangle when another hopping is added
+            return std::vector<HT>(f.terms);
+        }, "List of :class:`~_pybinding.HoppingTerm`")
         .def(py::pickle([](HF const& f) {
             return py::dict("energy"_a=f.energy, "family_id"_a=f.family_id, "terms"_a=f.terms);
         }, [](py::dict d) {
-- 
2.43.0


From 999b389799fe7258dde1bf7034cd59bd5e6df192 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:13:16 +0000
Subject: [PATCH 47/67] fix: a raw Hamiltonian handed out by a model lost its
 matrix when the model changed (null dereference)

---
 cppmodule/src/model.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppmodule/src/model.cpp b/cppmodule/src/model.cpp
index de7fc66..a3ee4ea 100644
--- a/cppmodule/src/model.cpp
+++ b/cppmodule/src/model.cpp
@@ -25,7 +25,10 @@ void wrap_model(py::module& m) {
         )")
         .def_property_readonly("lattice", &Model::get_lattice)
         .def_property_readonly("system", &Model::system)
-        .def_property_readonly("raw_hamiltonian", &Model::hamiltonian)
+        .def_property_readonly("raw_hamiltonian", [](Model const& self) {
+            // A copy (which shares the data): the model drops its own as soon as anything changes
+            return Hamiltonian(self.hamiltonian());
+        })
         .def_property_readonly("hamiltonian", [](Model const& self) -> py::object {
             // The model drops its Hamiltonian as soon as anything changes, but the matrix must
             // remain valid: it keeps alive a copy of the Hamiltonian (which shares the data).
-- 
2.43.0


From 8d70d8a500fc20686469445c2f8c4a7469426c2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:13:16 +0000
Subject: [PATCH 48/67] fix: modifier results with an unusual memory layout
 were misread or read out of bounds; 'sites' with coordinates failed for
 multi-orbital models

---
 pybinding/modifier.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pybinding/modifier.py b/pybinding/modifier.py
index ac25ab3..617b548 100644
--- a/pybinding/modifier.py
+++ b/pybinding/modifier.py
@@ -43,8 +43,7 @@ def _process_modifier_args(args, keywords, requested_argnames):
         if isinstance(obj, str):
             return AliasIndex(SplitName(obj), shape, orbs)
         elif isinstance(obj, np.ndarray) and obj.size == shape[0]:
-            obj.shape = shape
-            return obj
+            return obj.reshape(shape)  # the original is needed for `sites`
         else:
             return obj
 
@@ -110,15 +109,14 @@ def _sanitize_modifier_result(result, args, expected_num_return, can_be_complex)
                 raise TypeError("Modifier result is '{}', but expected same kind as '{}'"
                                 " (precision is flexible)".format(r.dtype, prime_arg.dtype))
 
-    def moveaxis(r):
-        """If the result is a new contiguous array, the axis needs to be moved back"""
-        if r.ndim == 3 and r.flags["OWNDATA"] and r.flags["C_CONTIGUOUS"]:
-            return np.moveaxis(r, 0, 2).copy()
-        else:
-            return r
+    def in_order(r):
+        """Return the elements in the memory order of the arguments, whatever the result's layout"""
+        if prime_arg.ndim == 3 and r.ndim == 3:
+            r = np.moveaxis(r, 0, 2)  # the sites were moved first by `_process_modifier_args`
+        return np.ascontiguousarray(r)
 
     result = tuple(map(cast, result))
-    result = tuple(map(moveaxis, result))
+    result = tuple(map(in_order, result))
     return result[0] if expected_num_return == 1 else result
 
 
-- 
2.43.0


From b0a7acb6eef878e6796ab8dd8d94f4d6077a7fb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:18:42 +0000
Subject: [PATCH 49/67] fix: offset and composite shapes: lines were moved
 along the wrong components, freeform shapes with shorter centres failed and
 3D compositions lost their height

---
 pybinding/shape.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pybinding/shape.py b/pybinding/shape.py
index 2012fe8..c9a2a1c 100644
--- a/pybinding/shape.py
+++ b/pybinding/shape.py
@@ -47,6 +47,13 @@ def _plot_freeform_shape(vertices, contains, resolution=(1000, 1000), **kwargs):
     return im
 
 
+def _padded(vector):
+    """Return a 3D version of a vector with 1 to 3 components"""
+    result = np.zeros(3)
+    result[:len(vector)] = vector
+    return result
+
+
 class _CompositionMixin:
     """Provides logical and arithmetic operators to form composite shapes"""
     def __and__(self, other):
@@ -85,7 +92,8 @@ class Line(_cpp.Line):
 
     def with_offset(self, vector):
         """Return a copy that's offset by the given vector"""
-        return Line(self.a + vector[0], self.b + vector[1])
+        v = _padded(vector)[:2]
+        return Line(self.a + v, self.b + v)
 
     def plot(self, **kwargs):
         """Show the line
@@ -160,7 +168,7 @@ class FreeformShape(_cpp.FreeformShape, _CompositionMixin):
             r0 = [x, y, z]
             r = [v0 - v for v0, v in zip(r0, vector)] + r0[len(vector):]
             return self.contains(*r)
-        return FreeformShape(contains, self.width, self.center[:len(vector)] + vector)
+        return FreeformShape(contains, self.width, _padded(self.center) + _padded(vector))
 
     def plot(self, resolution=(1000, 1000), **kwargs):
         """Plot a lightly shaded silhouette of the freeform shape
@@ -197,8 +205,10 @@ class CompositeShape(_cpp.Shape, _CompositionMixin):
         # This is a wasteful in some situations (e.g. intersections) but its always safe and
         # quick to code using scipy's implementation. Performance isn't an issue here for now
         # but revisit this if it becomes a concern.
-        hull = ConvexHull(np.array(shape1.vertices + shape2.vertices)[:, :2])
-        vertices = hull.points[hull.vertices]
+        # The hull is only computed in the xy plane: 3D shapes just keep all of their vertices.
+        vertices = np.array(shape1.vertices + shape2.vertices)
+        if np.all(vertices[:, 2] == vertices[0, 2]):
+            vertices = vertices[ConvexHull(vertices[:, :2]).vertices]
 
         super().__init__(vertices, lambda x, y, z: op(shape1.contains(x, y, z),
                                                       shape2.contains(x, y, z)))
-- 
2.43.0


From 1b22a52721a0915242c4914a768d648324a7db15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:25:39 +0000
Subject: [PATCH 50/67] fix: results: short path segments lost their first
 point, columns of a sweep were transposed, maps of plain lists and of sites
 without ids failed

---
 pybinding/results.py           | 15 ++++++++++-----
 pybinding/support/structure.py |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pybinding/results.py b/pybinding/results.py
index dddffe3..0fa79b7 100644
--- a/pybinding/results.py
+++ b/pybinding/results.py
@@ -141,13 +141,15 @@ def make_path(k0, k1, *ks, step=0.1):
     True
     """
     k_points = [np.atleast_1d(k) for k in (k0, k1) + ks]
-    if not all(k.shape == k_points[0].shape for k in k_points[:1]):
+    if not all(k.shape == k_points[0].shape for k in k_points):
         raise RuntimeError("All k-points must have the same shape")
 
     k_paths = []
     point_indices = [0]
     for k_start, k_end in zip(k_points[:-1], k_points[1:]):
-        num_steps = int(np.linalg.norm(k_end - k_start) // step)
+        length = np.linalg.norm(k_end - k_start)
+        # a segment shorter than the step must still include its starting point
+        num_steps = max(int(length // step), int(length > 0))
         # k_path.shape == num_steps, k_space_dimensions
         k_path = np.array([np.linspace(s, e, num_steps, endpoint=False)
                            for s, e in zip(k_start, k_end)]).T
@@ -224,7 +226,7 @@ class SpatialMap:
         else:
             self._sites = Sites(positions, sublattices)
 
-        if self.num_sites != data.size:
+        if self.num_sites != self._data.size:
             raise RuntimeError("Data size doesn't match number of sites")
 
     @property
@@ -800,7 +802,10 @@ class Sweep:
         else:
             idx_x = item
             idx_y = slice(None)
-        return self._with_data(self.x[idx_x], self.y[idx_y], self.data[idx_x, idx_y])
+        data = self.data[idx_x, idx_y]
+        if np.ndim(self.y[idx_y]) == 0:
+            data = np.reshape(data, (-1, 1))  # a single column
+        return self._with_data(self.x[idx_x], self.y[idx_y], data)
 
     def _with_data(self, x, y, data):
         return self.__class__(x, y, data, self.labels, self.tags)
@@ -872,7 +877,7 @@ class Sweep:
             data = np.hstack((self.data[:, ::-1], self.data[:, 1:]))
             return self._with_data(self.x, y, data)
         else:
-            RuntimeError("Invalid axis")
+            raise RuntimeError("Invalid axis")
 
     def interpolated(self, mul=None, size=None, kind='linear'):
         """Return a copy with interpolate data using :class:`scipy.interpolate.interp1d`
diff --git a/pybinding/support/structure.py b/pybinding/support/structure.py
index 62f9b10..518e257 100644
--- a/pybinding/support/structure.py
+++ b/pybinding/support/structure.py
@@ -173,7 +173,7 @@ class Sites(AbstractSites):
         return getattr(self, "_ids", np.zeros_like(self._x, dtype=np.int8))
 
     def __getitem__(self, item):
-        return self.__class__([v[item] for v in self.positions], self._ids[item])
+        return self.__class__([v[item] for v in self.positions], self.ids[item])
 
 
 class AbstractHoppings(metaclass=ABCMeta):
-- 
2.43.0


From 34eb333c2c44849e931d2bdee0b756ee6e03112f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:29:02 +0000
Subject: [PATCH 51/67] fix: the 'props' of a pickleable class could not be
 restored

---
 pybinding/support/pickle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index ff1fd2e..27d19c5 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -96,9 +96,9 @@ def pickleable(props="", version: int=0):
             ))
 
         self.__dict__.update(state["dict"])
-        props_state = {name: value for name, value in state.get("props", {})
+        props_state = {name: value for name, value in state.get("props", {}).items()
                        if name in props}
-        for name, value in props_state:
+        for name, value in props_state.items():
             setattr(self, name, value)
 
     def decorator(cls):
-- 
2.43.0


From bed4aec9c42a2d87e04845b34bf30f085c86c1f3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:34:26 +0000
Subject: [PATCH 52/67] fix: state probabilities at a site of a multi-orbital
 system used the wrong Hamiltonian rows and refused arrays; kwant orbital
 counts were looked up by family id

---
 pybinding/solver.py        | 5 +++--
 pybinding/support/kwant.py | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pybinding/solver.py b/pybinding/solver.py
index 37e9c97..d30f15c 100644
--- a/pybinding/solver.py
+++ b/pybinding/solver.py
@@ -117,11 +117,12 @@ class Solver:
         -------
         :class:`~pybinding.Eigenvalues`
         """
-        if not map_probability_at:
+        if map_probability_at is None:
             return results.Eigenvalues(self.eigenvalues)
         else:
             site_idx = self.system.find_nearest(position=map_probability_at)
-            probability = abs(self.eigenvectors[site_idx, :])**2
+            ham_idx = self.system.to_hamiltonian_indices(site_idx)
+            probability = np.sum(abs(self.eigenvectors[ham_idx, :])**2, axis=0)
 
             # sum probabilities of degenerate states
             for idx in self.find_degenerate_states(self.eigenvalues):
diff --git a/pybinding/support/kwant.py b/pybinding/support/kwant.py
index 99e635f..fd512fe 100644
--- a/pybinding/support/kwant.py
+++ b/pybinding/support/kwant.py
@@ -59,9 +59,8 @@ class KwantFiniteSystem(FiniteSystem):
         if not return_norb:
             return matrix
         else:
-            subs = self.pb_model.system.sublattices
-            norb = self.pb_model.system.impl.compressed_sublattices.orbital_counts
-            to_norb = norb[subs]
+            cs = self.pb_model.system.impl.compressed_sublattices
+            to_norb = np.repeat(cs.orbital_counts, cs.site_counts)
             from_norb = to_norb
             return matrix, to_norb, from_norb
 
-- 
2.43.0


From 74521f7dd9a9ac6063a48acffec9c3c5010e27d0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:37:36 +0000
Subject: [PATCH 53/67] fix: parallel_for() copied Python references on its
 worker threads, without holding the GIL

---
 cppcore/include/detail/thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/detail/thread.hpp b/cppcore/include/detail/thread.hpp
index 990119c..7706c6d 100644
--- a/cppcore/include/detail/thread.hpp
+++ b/cppcore/include/detail/thread.hpp
@@ -49,7 +49,7 @@ public:
         if (q.empty())
             return {};
 
-        auto val = q.front();
+        auto val = std::move(q.front());
         q.pop();
         lk.unlock();
         production_cv.notify_one();
-- 
2.43.0


From 8c7245434593fbad701ed843a28162e19f52ba67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:38:23 +0000
Subject: [PATCH 54/67] fix: an exception in a parallelized function ended the
 process: it now reaches the caller, as it does with one thread

---
 cppmodule/src/parallel.cpp | 81 ++++++++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/cppmodule/src/parallel.cpp b/cppmodule/src/parallel.cpp
index 9c3918e..707dd09 100644
--- a/cppmodule/src/parallel.cpp
+++ b/cppmodule/src/parallel.cpp
@@ -1,6 +1,10 @@
 #include "wrappers.hpp"
 #include "thread.hpp"
 #include "numeric/dense.hpp"
+
+#include <atomic>
+#include <exception>
+#include <mutex>
 using namespace cpb;
 
 void wrap_parallel(py::module& m) {
@@ -15,32 +19,67 @@ void wrap_parallel(py::module& m) {
     m.def("parallel_for", [](py::object sequence, py::object produce, py::object retire,
                              std::size_t num_threads, std::size_t queue_size) {
         auto const size = py::len(sequence);
-        py::gil_scoped_release gil_release;
 
         struct Job {
             py::object py;
             std::shared_ptr<DeferredBase> cpp;
         };
 
-        parallel_for(
-            size, num_threads, queue_size,
-            [&produce, &sequence](size_t id) {
-                py::gil_scoped_acquire gil_acquire;
-                py::object var = sequence[py::cast(id)];
-                py::object obj = produce(var);
-                return Job{obj, obj.cast<std::shared_ptr<DeferredBase>>()};
-            },
-            [](Job& job) {
-                // no GIL lock -> computations run in parallel
-                // but no Python code may be called here
-                job.cpp->compute();
-            },
-            [&retire](Job job, size_t id) {
-                py::gil_scoped_acquire gil_acquire;
-                retire(job.py, id);
-                job.py.release().dec_ref();
-                job.cpp.reset();
-            }
-        );
+        // An exception must not escape from the threads which run these functions:
+        // the first one stops the loop and it's rethrown on the calling thread
+        std::exception_ptr error;
+        std::atomic<bool> has_error{false};
+        std::mutex error_mutex;
+        auto const store_error = [&] {
+            std::lock_guard<std::mutex> lock{error_mutex};
+            if (!error) { error = std::current_exception(); }
+            has_error = true;
+        };
+
+        {
+            py::gil_scoped_release gil_release;
+
+            parallel_for(
+                size, num_threads, queue_size,
+                [&](size_t id) {
+                    if (has_error) { return Job{}; }
+
+                    py::gil_scoped_acquire gil_acquire;
+                    try {
+                        py::object var = sequence[py::cast(id)];
+                        py::object obj = produce(var);
+                        return Job{obj, obj.cast<std::shared_ptr<DeferredBase>>()};
+                    } catch (...) {
+                        store_error();
+                        return Job{};
+                    }
+                },
+                [&](Job& job) {
+                    // no GIL lock -> computations run in parallel
+                    // but no Python code may be called here
+                    if (!job.cpp || has_error) { return; }
+
+                    try {
+                        job.cpp->compute();
+                    } catch (...) {
+                        store_error();
+                    }
+                },
+                [&](Job job, size_t id) {
+                    if (!job.cpp) { return; }
+
+                    py::gil_scoped_acquire gil_acquire;
+                    try {
+                        if (!has_error) { retire(job.py, id); }
+                    } catch (...) {
+                        store_error();
+                    }
+                    job.py.release().dec_ref();
+                    job.cpp.reset();
+                }
+            );
+        }
+
+        if (error) { std::rethrow_exception(error); }
     }, "sequence"_a, "produce"_a, "retire"_a, "num_threads"_a, "queue_size"_a);
 }
-- 
2.43.0


From 7eb3094e9e8884fba11861ded646ec40c07b1410 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:26:06 +0000
Subject: [PATCH 55/67] fix: computing a deferred result while holding the GIL
 deadlocked with the progress reports of its threads

---
 cppmodule/include/thread.hpp | 9 ++++++++-
 cppmodule/src/parallel.cpp   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cppmodule/include/thread.hpp b/cppmodule/include/thread.hpp
index 7bd2db2..0922daf 100644
--- a/cppmodule/include/thread.hpp
+++ b/cppmodule/include/thread.hpp
@@ -30,7 +30,14 @@ public:
         is_computed = true;
     }
 
-    py::object result() final { compute(); return py::cast(_result); }
+    py::object result() final {
+        {
+            // the computation may need the GIL on other threads (e.g. to report progress)
+            py::gil_scoped_release gil_release;
+            compute();
+        }
+        return py::cast(_result);
+    }
 
 private:
     py::object _solver;
diff --git a/cppmodule/src/parallel.cpp b/cppmodule/src/parallel.cpp
index 707dd09..b1649dc 100644
--- a/cppmodule/src/parallel.cpp
+++ b/cppmodule/src/parallel.cpp
@@ -9,7 +9,7 @@ using namespace cpb;
 
 void wrap_parallel(py::module& m) {
     py::class_<DeferredBase, std::shared_ptr<DeferredBase>>(m, "DeferredBase")
-        .def("compute", &DeferredBase::compute)
+        .def("compute", &DeferredBase::compute, release_gil())
         .def_property_readonly("solver", &DeferredBase::solver)
         .def_property_readonly("result", &DeferredBase::result);
 
-- 
2.43.0


From b613c58370a2f8355209e697ec2b3d821593bdc3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:31:33 +0000
Subject: [PATCH 56/67] fix: off-diagonal Green's functions of complex
 Hamiltonians were those of the transposed element

---
 cppcore/src/kpm/Core.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index 3fd16a7..6398ef9 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -12,6 +12,16 @@ namespace {
             return {config.min_energy, config.max_energy}; // user-defined bounds
         }
     }
+
+    /// Turns `<col|Tn(H)|row>` into `<row|Tn(H)|col>`
+    struct Conjugate {
+        template<class scalar_t>
+        void operator()(std::vector<ArrayX<scalar_t>>& data) const {
+            for (auto& moments : data) {
+                moments = moments.conjugate().eval();
+            }
+        }
+    };
 } // anonymous namespace
 
 Core::Core(Hamiltonian const& h, Compute const& compute, Config const& config)
@@ -114,6 +124,7 @@ std::vector<ArrayXcd> Core::greens_vector(idx_t row, std::vector<idx_t> const& c
     } else {
         auto moments_vector = MultiUnitMoments(num_moments, oh.idx());
         timed_compute(&moments_vector, unit_starter(oh), config.algorithm);
+        var::apply_visitor(Conjugate{}, moments_vector.data);
         apply_damping(moments_vector, config.kernel);
         return reconstruct<GreensFunction>(moments_vector, energy, scale);
     }
-- 
2.43.0


From 863b4447d32ba8776b8b7c79c902e3398e03043f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:33:06 +0000
Subject: [PATCH 57/67] fix: a parallelized function which returned None ended
 the process

---
 cppmodule/src/parallel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cppmodule/src/parallel.cpp b/cppmodule/src/parallel.cpp
index b1649dc..5fccf24 100644
--- a/cppmodule/src/parallel.cpp
+++ b/cppmodule/src/parallel.cpp
@@ -48,7 +48,11 @@ void wrap_parallel(py::module& m) {
                     try {
                         py::object var = sequence[py::cast(id)];
                         py::object obj = produce(var);
-                        return Job{obj, obj.cast<std::shared_ptr<DeferredBase>>()};
+                        auto cpp = obj.cast<std::shared_ptr<DeferredBase>>();
+                        if (!cpp) {
+                            throw std::runtime_error("The function must return a deferred result");
+                        }
+                        return Job{obj, std::move(cpp)};
                     } catch (...) {
                         store_error();
                         return Job{};
-- 
2.43.0


From e05bd79c05eaf5e25a4194c9cff56e976b1840c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:34:31 +0000
Subject: [PATCH 58/67] fix: overlapping progress bars of several threads
 failed or did not restore the standard streams

---
 pybinding/utils/progressbar.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/pybinding/utils/progressbar.py b/pybinding/utils/progressbar.py
index 4369d10..de6af5d 100644
--- a/pybinding/utils/progressbar.py
+++ b/pybinding/utils/progressbar.py
@@ -2,6 +2,7 @@ import datetime
 import io
 import os
 import sys
+import threading
 
 
 def percentage(template="{:3.0%}"):
@@ -35,21 +36,38 @@ def eta(template="ETA: {}"):
 
 
 class StdCapture:
+    """Capture a standard stream
+
+    Captures may overlap in any order, e.g. when calculations on several threads report their
+    progress: they share one buffer and the last one to stop restores the original stream.
+    """
+    _lock = threading.Lock()
+    _original_streams = {}
+    _num_active = {}
+
     def __init__(self, stream_name='stdout'):
         self.stream_name = stream_name
-        self._old_stream = getattr(sys, stream_name)
 
     def start(self):
-        self._old_stream = getattr(sys, self.stream_name)
-        setattr(sys, self.stream_name, io.StringIO())
+        name = self.stream_name
+        with self._lock:
+            if self._num_active.get(name, 0) == 0:
+                self._original_streams[name] = getattr(sys, name)
+                setattr(sys, name, io.StringIO())
+            self._num_active[name] = self._num_active.get(name, 0) + 1
 
     def get(self):
-        output = getattr(sys, self.stream_name).getvalue()
-        setattr(sys, self.stream_name, io.StringIO())
-        return output
+        with self._lock:
+            output = getattr(sys, self.stream_name).getvalue()
+            setattr(sys, self.stream_name, io.StringIO())
+            return output
 
     def stop(self):
-        setattr(sys, self.stream_name, self._old_stream)
+        name = self.stream_name
+        with self._lock:
+            self._num_active[name] -= 1
+            if self._num_active[name] == 0:
+                setattr(sys, name, self._original_streams.pop(name))
 
 
 class StreamOutput:
-- 
2.43.0


From 326f614bfcc9853406f47ee7364b3702fdc7184b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:53:10 +0000
Subject: [PATCH 59/67] fix: the Brillouin zones of lattices with skewed
 primitive vectors were wrong or refused

---
 pybinding/lattice.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pybinding/lattice.py b/pybinding/lattice.py
index 8a1182c..4626dda 100644
--- a/pybinding/lattice.py
+++ b/pybinding/lattice.py
@@ -324,9 +324,17 @@ class Lattice:
             l = np.linalg.norm(v1)
             return [-l/2, l/2]
         elif self.ndim == 2:
-            # The closest reciprocal lattice points are combinations of the primitive vectors
-            vectors = self.reciprocal_vectors()
-            points = [sum(n * v for n, v in zip(ns, vectors))
+            # The closest reciprocal lattice points are combinations of the shortest primitive
+            # vectors (the given ones may be skewed)
+            v1, v2 = self.reciprocal_vectors()
+            while True:
+                if np.dot(v1, v1) > np.dot(v2, v2):
+                    v1, v2 = v2, v1
+                overlap = np.dot(v1, v2) / np.dot(v1, v1)
+                if abs(overlap) < 0.5001:
+                    break
+                v2 = v2 - np.round(overlap) * v1
+            points = [sum(n * v for n, v in zip(ns, (v1, v2)))
                       for ns in itertools.product([-1, 0, 1], repeat=self.ndim)]
 
             # Voronoi doesn't like trailing zeros in coordinates
-- 
2.43.0


From a1dea0ccfb136d79ead8929258fc1dcd81468fa5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:56:15 +0000
Subject: [PATCH 60/67] fix: comparing a multi-dimensional AliasArray with a
 name failed or gave the wrong shape

---
 pybinding/support/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/alias.py b/pybinding/support/alias.py
index 30761b3..7f8cb3c 100644
--- a/pybinding/support/alias.py
+++ b/pybinding/support/alias.py
@@ -45,7 +45,7 @@ class AliasArray(np.ndarray):
         if other in self.mapping:
             return super().__eq__(self.mapping[other])
         else:
-            result = np.zeros(len(self), dtype=np.bool)
+            result = np.zeros(self.shape, dtype=np.bool)
             for k, v in self.mapping.items():
                 if k == other:
                     result = np.logical_or(result, super().__eq__(v))
-- 
2.43.0


From 25a76c1c40c082c18fc2f3e4da5b050ef7b10027 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:56:15 +0000
Subject: [PATCH 61/67] fix: copies, rows and columns of an AliasCSRMatrix lost
 their names

---
 pybinding/support/alias.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pybinding/support/alias.py b/pybinding/support/alias.py
index 7f8cb3c..530c367 100644
--- a/pybinding/support/alias.py
+++ b/pybinding/support/alias.py
@@ -96,7 +96,9 @@ class AliasCSRMatrix(csr_matrix):
     def __init__(self, *args, **kwargs):
         mapping = kwargs.pop('mapping', {})
         if not mapping:
-            mapping = getattr(args[0], 'mapping', {})
+            # `args[0]` may also be `(data, indices, indptr)`, e.g. when called by `copy()`
+            source = args[0][0] if isinstance(args[0], tuple) else args[0]
+            mapping = getattr(source, 'mapping', {})
 
         super().__init__(*args, **kwargs)
         self.data = AliasArray(self.data, mapping)
@@ -125,6 +127,12 @@ class AliasCSRMatrix(csr_matrix):
         else:
             return result
 
+    def getrow(self, i):
+        return AliasCSRMatrix(super().getrow(i), mapping=self.mapping)
+
+    def getcol(self, i):
+        return AliasCSRMatrix(super().getcol(i), mapping=self.mapping)
+
 
 class AliasIndex:
     """An all-or-nothing array index based on equality with a specific value
-- 
2.43.0


From 9c83dde4d2ff8f38fd81e849a04c192674c28973 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:56:15 +0000
Subject: [PATCH 62/67] fix: adding two fuzzy sets changed the first one

---
 pybinding/support/fuzzy_set.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pybinding/support/fuzzy_set.py b/pybinding/support/fuzzy_set.py
index aca17fe..39d8390 100644
--- a/pybinding/support/fuzzy_set.py
+++ b/pybinding/support/fuzzy_set.py
@@ -29,12 +29,11 @@ class FuzzySet:
         return self
 
     def __add__(self, other):
+        ret = copy.copy(self)
+        ret.data = list(self.data)
         if isinstance(other, FuzzySet):
-            ret = copy.copy(self)
             ret += other
-            return ret
-        else:
-            return copy.copy(self)
+        return ret
 
     def __radd__(self, other):
         return self + other
-- 
2.43.0


From c46ba904ae43d7c4911fbc45dcedca15cbef2ca0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:59:30 +0000
Subject: [PATCH 63/67] fix: comparing a blank SplitName with another name
 never ended

---
 pybinding/support/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/alias.py b/pybinding/support/alias.py
index 530c367..4251e68 100644
--- a/pybinding/support/alias.py
+++ b/pybinding/support/alias.py
@@ -228,7 +228,7 @@ class SplitName(str):
     """
     @property
     def first(self):
-        return self.split("|")[0]
+        return str(self).split("|")[0]
 
     def __eq__(self, other):
         return super().__eq__(other) or self.first == other
-- 
2.43.0


From 2ec908ffeafd34dcdd124d506782e417c4b2a997 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:16:04 +0000
Subject: [PATCH 64/67] fix: plotting only some of the hoppings removed the
 others from the given matrix

---
 pybinding/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybinding/system.py b/pybinding/system.py
index e4d2825..900b0b5 100644
--- a/pybinding/system.py
+++ b/pybinding/system.py
@@ -1,6 +1,7 @@
 """Structural information and utilities"""
 import functools
 import itertools
+from copy import copy
 
 import numpy as np
 import matplotlib.pyplot as plt
@@ -382,6 +383,7 @@ def plot_hoppings(positions, hoppings, width=1.0, offset=(0, 0, 0), blend=1.0, c
         keep = np.zeros_like(hoppings.data, dtype=np.bool)
         for hop_id in draw_only:
             keep = np.logical_or(keep, hoppings.data == hop_id)
+        hoppings = copy(hoppings)  # shallow copy: it may be the caller's own matrix
         hoppings.data = hoppings.data[keep]
         hoppings.col = hoppings.col[keep]
         hoppings.row = hoppings.row[keep]
-- 
2.43.0


From aaa377e3796601e36ac5cb83098bcfb80baa85b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:16:04 +0000
Subject: [PATCH 65/67] fix: sites of 3D plots were drawn with the radii of
 other sites

---
 pybinding/support/collections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pybinding/support/collections.py b/pybinding/support/collections.py
index 2b95ce9..7915fa9 100644
--- a/pybinding/support/collections.py
+++ b/pybinding/support/collections.py
@@ -37,6 +37,7 @@ class Circle3DCollection(CircleCollection):
     def __init__(self, radius, zs=0, zdir='z', depthshade=True, **kwargs):
         super().__init__(radius, **kwargs)
         self._depthshade = depthshade
+        self._radius0 = self.radius
         self.set_3d_properties(zs, zdir)
         self._A0 = self._A
 
@@ -72,6 +73,8 @@ class Circle3DCollection(CircleCollection):
 
         self.set_offsets(v[:2, idx].transpose())
         super().set_array(self._A0[idx])
+        if self._radius0.size > 1:
+            self.radius = self._radius0[idx]
 
         fcs = zalpha(self._facecolor3d, vzs) if self._depthshade else self._facecolor3d
         fcs = mcolors.colorConverter.to_rgba_array(fcs, self._alpha)
-- 
2.43.0


From 205f843990c8787a4b4b615e3738704f06bd2c7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:43:40 +0000
Subject: [PATCH 66/67] fix: results saved by older versions (an empty list of
 props) could not be loaded

---
 pybinding/support/pickle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybinding/support/pickle.py b/pybinding/support/pickle.py
index 27d19c5..2eaf88e 100644
--- a/pybinding/support/pickle.py
+++ b/pybinding/support/pickle.py
@@ -96,7 +96,7 @@ def pickleable(props="", version: int=0):
             ))
 
         self.__dict__.update(state["dict"])
-        props_state = {name: value for name, value in state.get("props", {}).items()
+        props_state = {name: value for name, value in dict(state.get("props", {})).items()
                        if name in props}
         for name, value in props_state.items():
             setattr(self, name, value)
-- 
2.43.0


From 71bb6afeb1d2e1753431b97a260a8599ffd4cd0e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:54:41 +0000
Subject: [PATCH 67/67] fix: the precision of the Lanczos bounds depended on
 the position of the spectrum

The change from one iteration to the next was compared with the largest
magnitude of the eigenvalues. An energy offset made the criterion looser and
the bounds of a shifted spectrum missed its ends by more than the safety margin
of the scaling factors, so that the Chebyshev expansion diverged.
---
 cppcore/include/compute/lanczos.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/compute/lanczos.hpp b/cppcore/include/compute/lanczos.hpp
index d3c6964..061845e 100644
--- a/cppcore/include/compute/lanczos.hpp
+++ b/cppcore/include/compute/lanczos.hpp
@@ -139,8 +139,10 @@ LanczosBounds minmax_eigenvalues(SparseMatrixX<scalar_t> const& matrix, double p
                                                                   eigen_cast<ArrayX>(beta));
         auto const min = eigenvalues.minCoeff();
         auto const max = eigenvalues.maxCoeff();
-        // Relative to the largest magnitude because one of the two may be zero (up to rounding)
-        auto const tolerance = precision * std::max(std::abs(min), std::abs(max));
+        // Relative to the width of the spectrum, but no better than rounding errors allow
+        auto const magnitude = std::max(std::abs(min), std::abs(max));
+        auto const tolerance = std::max(precision * (max - min) / 2,
+                                        4 * std::numeric_limits<real_t>::epsilon() * magnitude);
         auto const is_converged_min = std::abs(previous_min - min) < tolerance;
         auto const is_converged_max = std::abs(previous_max - max) < tolerance;
 
-- 
2.43.0

