From 2f0190913e84a6cb58d59e7875152e463d349329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 01/32] fix: fold hoppings longer than one unit cell across
 periodic boundaries

Boundary hoppings were only collected from a single layer of the periodic cell and
shifted by relative_index * period, so a hopping spanning two or more cells was lost
whenever the period was longer than one cell. A period longer than the available
material indexed the foundation out of bounds.
---
 cppcore/src/system/Symmetry.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..1cf20ce 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -44,6 +44,7 @@ SymmetryArea TranslationalSymmetry::area(Foundation const& foundation) const {
 std::vector<Translation> TranslationalSymmetry::translations(Foundation const& foundation) const {
     auto const& lattice = foundation.get_lattice();
     auto const symmetry_area = area(foundation);
+    auto const& spatial_size = foundation.get_spatial_size();
 
     std::vector<Translation> translations;
     auto add_translation = [&](Index3D direction) {
@@ -60,10 +61,11 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
 
         auto boundary_slice = SliceIndex3D();
         for (auto n = 0, size = lattice.ndim(); n < size; ++n) {
-            if (direction[n] > 0)
-                boundary_slice[n] = symmetry_area.left[n];
-            else if (direction[n] < 0)
-                boundary_slice[n] = symmetry_area.right[n];
+            // Hoppings may span more than one lattice site: any layer of the
+            // periodic cell can have neighbors on the other side of the boundary
+            if (direction[n] != 0)
+                boundary_slice[n] = {std::max(symmetry_area.left[n], 0),
+                                     std::min(symmetry_area.right[n] + 1, spatial_size[n])};
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
@@ -77,11 +79,26 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
         translations.push_back({direction, boundary_slice, shift_index, shift_length});
     };
 
+    // The number of whole periods crossed by a hopping, rounded away from zero
+    auto const num_periods = [&](Index3D const& relative_index) {
+        auto n = Index3D{0, 0, 0};
+        for (auto i = 0; i < lattice.ndim(); ++i) {
+            if (enabled_directions[i]) {
+                auto const period = symmetry_area.middle[i];
+                auto const distance = std::abs(relative_index[i]);
+                n[i] = (distance + period - 1) / period * (relative_index[i] < 0 ? -1 : 1);
+            }
+        }
+        return n;
+    };
+
     auto const masks = detail::make_masks(enabled_directions, lattice.ndim());
     for (auto const& sublattice : lattice.optimized_unit_cell()) {
         for (auto const& hopping : sublattice.hoppings) {
+            auto const n = num_periods(hopping.relative_index);
             for (auto const& mask : masks) {
-                add_translation(hopping.relative_index.cwiseProduct(mask));
+                // A long hopping may cross `n` or `n - 1` periods depending on its origin
+                add_translation(n - n.cwiseSign().cwiseProduct(Index3D::Ones() - mask));
             }
         }
     }
-- 
2.43.0


From 66610c333a154884fd5e17407c80ad989973529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 02/32] fix: renumber hoppings when sites are removed after a
 generator

HoppingBlocks::filter() dropped the hoppings of removed sites but kept the old
indices for the remaining ones, which pointed to other sites or past the end.
---
 cppcore/src/system/HoppingBlocks.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..7480ebf 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -78,13 +78,22 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-    using std::begin; using std::end;
+    // The remaining sites are renumbered to stay consecutive
+    auto new_indices = ArrayXi(keep.size());
+    num_sites = 0;
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_indices[i] = static_cast<storage_idx_t>(num_sites);
+        if (keep[i]) { ++num_sites; }
+    }
 
-    num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo = {new_indices[coo.row], new_indices[coo.col]};
+        }
     }
 }
 
-- 
2.43.0


From 45c28bf4e5fb1aac1c33f03e5619c7b8da29d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 03/32] fix: complete the upper triangular onsite energy of
 generated sites

Lattice::add_sublattice() does this for regular sites. Without it the Hamiltonian
of a model with such a site generator was not Hermitian.
---
 cppcore/src/system/Registry.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index cfe8eb6..9e26381 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -18,6 +18,15 @@ void check_energy(HoppingRegistry const&, MatrixXcd const& energy) {
 template<class ID>
 constexpr char const* kind() { return std::is_same<ID, SiteID>() ? "Site" : "Hopping"; }
 
+/// An onsite matrix may be given as upper triangular: the other half is implied
+MatrixXcd full_energy(SiteRegistry const&, MatrixXcd const& energy) {
+    return energy.selfadjointView<Eigen::Upper>();
+}
+
+MatrixXcd full_energy(HoppingRegistry const&, MatrixXcd const& energy) {
+    return energy;
+}
+
 } // anonymous namespace
 
 template<class ID>
@@ -39,7 +48,7 @@ void Registry<ID>::register_family(std::string const& name, MatrixXcd const& ene
     }
 
     names.push_back(name);
-    energies.push_back(energy);
+    energies.push_back(full_energy(*this, energy));
 }
 
 template<class ID>
-- 
2.43.0


From c1bad5645932afe3fc98aea9924fe7cc237535ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 04/32] fix: keep the direction of generated hoppings

A generated hopping was turned around whenever its origin had the higher index, which
conjugated complex energies and transposed matrix energies.
---
 cppcore/src/system/HoppingBlocks.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 7480ebf..8e770d3 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -66,15 +66,19 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
     block.reserve(block.size() + rows.size());
 
     for (auto i = 0; i < rows.size(); ++i) {
-        auto m = rows[i];
-        auto n = cols[i];
-        if (m > n) { std::swap(m, n); } // upper triangular format
-        block.emplace_back(m, n);
+        block.emplace_back(rows[i], cols[i]);
     }
 
-    // Maintain upper triangular format
-    std::sort(block.begin(), block.end());
-    block.erase(std::unique(block.begin(), block.end()), block.end());
+    // Each pair of sites is connected only once: (m, n) and (n, m) are the same hopping because
+    // the conjugate term is implied. The first one is kept as it was given: the direction can't
+    // be changed because the hopping energy may be complex or a matrix.
+    auto const upper = [](COO const& c) { return COO(std::min(c.row, c.col), std::max(c.row, c.col)); };
+    std::stable_sort(block.begin(), block.end(), [&](COO const& a, COO const& b) {
+        return upper(a) < upper(b);
+    });
+    block.erase(std::unique(block.begin(), block.end(), [&](COO const& a, COO const& b) {
+        return upper(a) == upper(b);
+    }), block.end());
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-- 
2.43.0


From ffd2ec54b2551bd7d61c302cf8c09bedcb353c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 05/32] fix: map hoppings of generated sites with any number of
 orbitals

Index translation assumed that all sites with the same number of orbitals are
consecutive. That is true for the lattice but not for generated sites, whose hoppings
then ended up on the orbitals of other sites.
---
 .../hamiltonian/HamiltonianModifiers.hpp      | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..a8b6a9b 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -162,11 +162,19 @@ class IndexTranslator {
 public:
     /// A translator is specific to a system and hopping family -- the matrix dimensions
     IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
-        : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
+        : term_size(hopping_matrix.rows(), hopping_matrix.cols()) {
+        // Generated sites may be appended in any order, i.e. sites with an equal
+        // number of orbitals don't need to be consecutive (but they usually are).
+        for (auto const& sub : system.compressed_sublattices) {
+            auto const norb = sub.num_orbitals();
+            auto const offset = sub.ham_start() - sub.sys_start() * norb;
+            if (!blocks.empty() && blocks.back().norb == norb && blocks.back().offset == offset) {
+                blocks.back().sys_end = sub.sys_end();
+            } else {
+                blocks.push_back({sub.sys_end(), norb, offset});
+            }
+        }
+    }
 
     /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
     ///     lambda(idx_t row, idx_t col, scalar_t value)
@@ -174,11 +182,11 @@ public:
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
     void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = idx_t{0}; i < term_size.row; ++i) {
+            for (auto j = idx_t{0}; j < term_size.col; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
+                    auto const ham_row = i + ham_start(coo.row);
+                    auto const ham_col = j + ham_start(coo.col);
 
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
@@ -190,9 +198,22 @@ public:
     }
 
 private:
+    /// Consecutive sites with the same number of orbitals
+    struct Block {
+        idx_t sys_end; ///< past end System index
+        idx_t norb; ///< number of orbitals on each site
+        idx_t offset; ///< Hamiltonian index == offset + System index * norb
+    };
+
+    /// The first Hamiltonian index of the given site
+    idx_t ham_start(idx_t sys_index) const {
+        auto it = blocks.begin();
+        while (sys_index >= it->sys_end) { ++it; }
+        return it->offset + sys_index * it->norb;
+    }
+
     COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
+    std::vector<Block> blocks; ///< in ascending index order
 };
 
 /**
@@ -244,7 +265,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
-- 
2.43.0


From 10787f2cdc76072079c862699365346800c233ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:40 +0000
Subject: [PATCH 06/32] fix: allow regular sublattices to be added after an
 alias

Lattice::site_registry() threw std::out_of_range because it reserved space only for
the number of regular sublattices but indexed it with IDs which also count aliases.
---
 cppcore/src/Lattice.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..85f94f7 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -245,18 +245,20 @@ OptimizedUnitCell Lattice::optimized_unit_cell() const {
 }
 
 SiteRegistry Lattice::site_registry() const {
-    auto const num_unique_subs = std::count_if(
-        sublattices.begin(), sublattices.end(),
-        [](Sublattices::const_reference r) {
-            return SubID(r.second.alias_id) == r.second.unique_id;
-        }
-    );
-
-    auto energies = std::vector<MatrixXcd>(num_unique_subs);
-    auto names = std::vector<std::string>(num_unique_subs);
+    // Aliases don't have sites of their own. They are only included as
+    // placeholders if followed by a regular sublattice with a higher ID.
+    auto size = storage_idx_t{0};
     for (auto const& pair : sublattices) {
         auto const& sub = pair.second;
         if (SubID(sub.alias_id) != sub.unique_id) { continue; }
+        size = std::max(size, sub.unique_id.value() + 1);
+    }
+
+    auto energies = std::vector<MatrixXcd>(size);
+    auto names = std::vector<std::string>(size);
+    for (auto const& pair : sublattices) {
+        auto const& sub = pair.second;
+        if (sub.unique_id.value() >= size) { continue; }
 
         energies.at(sub.unique_id.value()) = sub.energy;
         names.at(sub.unique_id.value()) = pair.first;
-- 
2.43.0


From 68383ec7087d54fb3d983bb7c7319e68367a1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 07/32] fix: leave the model unchanged when a new parameter is
 rejected

A rejected primitive, shape, site or hopping generator used to stay in the model: the
exception was thrown only after it had been stored and it took effect the next time
that the model was built.
---
 cppcore/src/Model.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..ff6e350 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -11,12 +11,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
@@ -28,8 +28,8 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    lattice.set_offset(lattice.get_offset() + new_shape.lattice_offset);
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
@@ -73,14 +73,14 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     site_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     hopping_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
-- 
2.43.0


From 0dea86b6d8f1f9e34ec4ade4f03ecda7a325d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 08/32] fix: rebuild the model after its modifiers are cleared

The previously built system and Hamiltonian were still returned, the families added by
generators stayed registered and the scalar type stayed complex.
---
 cppcore/include/Model.hpp |  4 ++--
 cppcore/src/Model.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..ade7d4b 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers();
+    void clear_hamiltonian_modifiers();
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index ff6e350..9365ac9 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -139,6 +139,19 @@ std::string Model::report() {
                        num_sites, system_build_time, nnz, hamiltonian_build_time);
 }
 
+void Model::clear_structure_modifiers() {
+    structure_modifiers.clear();
+    // The families which were added by generators
+    site_registry = lattice.site_registry();
+    hopping_registry = lattice.hopping_registry();
+    clear_structure();
+}
+
+void Model::clear_hamiltonian_modifiers() {
+    hamiltonian_modifiers.clear();
+    clear_hamiltonian();
+}
+
 std::shared_ptr<System> Model::make_system() const {
     auto foundation = shape ? Foundation(lattice, shape)
                             : Foundation(lattice, primitive);
@@ -212,6 +225,7 @@ void Model::clear_structure() {
 void Model::clear_hamiltonian() {
     _hamiltonian.reset();
     _leads.clear_hamiltonian();
+    complex_override = false; // depends on the results of the modifiers
 }
 
 } // namespace cpb
-- 
2.43.0


From 2489567f5567da7f7c5f788cc280529dbc7f3771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 09/32] fix: conjugate the hoppings between lead cells where
 needed

Hoppings defined in the direction opposite to the lead were entered into h1 with the
energy of the forward hopping, which is wrong for complex and matrix energies.
---
 cppcore/include/leads/HamiltonianPair.hpp |  5 +++++
 cppcore/src/leads/Structure.cpp           | 14 ++++++++++----
 pybinding/leads.py                        |  8 +++++---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 6f2c1ad..1ae29c4 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -28,6 +28,11 @@ namespace detail {
             matrix.insert(i, j) = hopping;
         });
 
+        // The second boundary holds the hoppings which are defined in the opposite direction
+        modifiers.apply_to_hoppings<scalar_t>(system, 1, [&](idx_t i, idx_t j, scalar_t hopping) {
+            matrix.insert(j, i) = num::conjugate(hopping);
+        });
+
         h1->makeCompressed();
         cpb::detail::throw_if_invalid(*h1);
 
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index f86ec26..da7c08c 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -49,9 +49,10 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
         system.compressed_sublattices.verify(size);
     }
 
-    system.boundaries.push_back([&]{
+    /*boundaries*/ {
         auto const size = static_cast<int>(indices.size());
         auto hopping_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+        auto conjugate_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
 
         for (auto const& site : slice) {
             if (!junction.is_valid[site.get_slice_idx()]) {
@@ -68,13 +69,18 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
             shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
                 auto const neighbor_index = lead_index(finalized_indices[neighbor]);
                 if (neighbor_index >= 0) {
-                    hopping_blocks.add(hopping.family_id, index, neighbor_index);
+                    if (!hopping.is_conjugate) {
+                        hopping_blocks.add(hopping.family_id, index, neighbor_index);
+                    } else { // the hopping is defined in the opposite direction
+                        conjugate_blocks.add(hopping.family_id, neighbor_index, index);
+                    }
                 }
             });
         }
 
-        return System::Boundary{hopping_blocks, shift};
-    }());
+        system.boundaries.push_back({hopping_blocks, shift});
+        system.boundaries.push_back({conjugate_blocks, -shift});
+    }
 }
 
 }} // namespace cpb::leads
diff --git a/pybinding/leads.py b/pybinding/leads.py
index 635cb35..ffe9e1b 100644
--- a/pybinding/leads.py
+++ b/pybinding/leads.py
@@ -98,7 +98,7 @@ class Lead:
         sub = self.system.sublattices
         inner_hoppings = self.system.hoppings.tocoo()
         boundary = self.system.boundaries[0]
-        outer_hoppings = boundary.hoppings.tocoo()
+        conjugate_boundary = self.system.boundaries[1]
 
         props = structure_plot_properties(**kwargs)
         props['site'].setdefault('radius', self.system.lattice.site_radius_for_plot())
@@ -108,8 +108,10 @@ class Lead:
             offset = i * boundary.shift
             plot_sites(pos, sub, offset=offset, blend=blend, **props['site'])
             plot_hoppings(pos, inner_hoppings, offset=offset, blend=blend, **props['hopping'])
-            plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift, blend=blend,
-                          boundary=(1, boundary.shift), **props['boundary'])
+            plot_hoppings(pos, boundary.hoppings.tocoo(), offset=offset - boundary.shift,
+                          blend=blend, boundary=(1, boundary.shift), **props['boundary'])
+            plot_hoppings(pos, conjugate_boundary.hoppings.tocoo(), offset=offset, blend=blend,
+                          boundary=(1, conjugate_boundary.shift), **props['boundary'])
 
         label_pos = _center(pos, lead_length * boundary.shift * 1.5)
         pltutils.annotate_box("lead {}".format(self.index), label_pos, bbox=dict(alpha=0.7))
-- 
2.43.0


From 367bffe06945aa596cc6304c4842d629baa7835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 10/32] fix: include the end points of a line shape

A position exactly at one of the end points gave 0 / 0 and was not contained, e.g. a
lead specified from site to site was missing its outermost sites.
---
 cppcore/src/system/Shape.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cppcore/src/system/Shape.cpp b/cppcore/src/system/Shape.cpp
index d4921f3..19f617f 100644
--- a/cppcore/src/system/Shape.cpp
+++ b/cppcore/src/system/Shape.cpp
@@ -32,13 +32,11 @@ ArrayX<bool> is_acute_angle(Cartesian a, Cartesian b, CartesianArrayConstRef c)
     auto const bc_y = ArrayXf{c.y() - b.y()};
     auto const bc_z = ArrayXf{c.z() - b.z()};
 
-    // Compute the cosine between the two vectors based on the dot product
+    // The dot product has the same sign as the cosine between the two vectors
+    // but it's also well defined for a point in the corner: `c == b`
     auto const ba_dot_bc = ba.x() * bc_x + ba.y() * bc_y + ba.z() * bc_z;
-    auto const ba_length = ba.norm();
-    auto const bc_length = sqrt(bc_x.cwiseAbs2() + bc_y.cwiseAbs2() + bc_z.cwiseAbs2());
-    auto const cos_theta = ba_dot_bc / (ba_length * bc_length);
 
-    return cos_theta >= 0; // acute angle
+    return ba_dot_bc >= 0; // acute angle
 };
 
 WithinPolygon::WithinPolygon(Shape::Vertices const& vertices)
-- 
2.43.0


From 3801eb61a3bf33b0b0029e4f2a5ceffce6ff5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:32 +0000
Subject: [PATCH 11/32] fix: don't crop shapes when sites are far from the
 origin of their unit cell

---
 cppcore/src/system/Foundation.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 8f6df1e..5f958a6 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -6,11 +6,19 @@ namespace cpb { namespace detail {
 std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice) {
     Array3i lower_bound = Array3i::Constant(std::numeric_limits<int>::max());
     Array3i upper_bound = Array3i::Constant(std::numeric_limits<int>::min());
-    for (auto const& point : shape.vertices) {
+    auto const add_point = [&](Cartesian point) {
         // Translate Cartesian coordinates `point` into lattice vector coordinates `v`
         Array3i const v = lattice.translate_coordinates(point).cast<int>();
         lower_bound = (v < lower_bound).select(v, lower_bound);
         upper_bound = (v > upper_bound).select(v, upper_bound);
+    };
+
+    for (auto const& point : shape.vertices) {
+        add_point(point);
+        // The sites don't need to be located at the origin of a unit cell
+        for (auto const& pair : lattice.get_sublattices()) {
+            add_point(point - lattice.get_offset() - pair.second.position);
+        }
     }
 
     // Add +/- 1 padding to compensate for `cast<int>()` truncation
-- 
2.43.0


From e969226d64ef227f7185036d28efc2449d7e3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 12/32] fix: keep the bounds of a shape when its sites are
 close to the origin of their unit cell

---
 cppcore/src/system/Foundation.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cppcore/src/system/Foundation.cpp b/cppcore/src/system/Foundation.cpp
index 5f958a6..3f831db 100644
--- a/cppcore/src/system/Foundation.cpp
+++ b/cppcore/src/system/Foundation.cpp
@@ -6,19 +6,11 @@ namespace cpb { namespace detail {
 std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& lattice) {
     Array3i lower_bound = Array3i::Constant(std::numeric_limits<int>::max());
     Array3i upper_bound = Array3i::Constant(std::numeric_limits<int>::min());
-    auto const add_point = [&](Cartesian point) {
+    for (auto const& point : shape.vertices) {
         // Translate Cartesian coordinates `point` into lattice vector coordinates `v`
         Array3i const v = lattice.translate_coordinates(point).cast<int>();
         lower_bound = (v < lower_bound).select(v, lower_bound);
         upper_bound = (v > upper_bound).select(v, upper_bound);
-    };
-
-    for (auto const& point : shape.vertices) {
-        add_point(point);
-        // The sites don't need to be located at the origin of a unit cell
-        for (auto const& pair : lattice.get_sublattices()) {
-            add_point(point - lattice.get_offset() - pair.second.position);
-        }
     }
 
     // Add +/- 1 padding to compensate for `cast<int>()` truncation
@@ -26,6 +18,18 @@ std::pair<Index3D, Index3D> find_bounds(Shape const& shape, Lattice const& latti
     lower_bound.head(ndim) -= 1;
     upper_bound.head(ndim) += 1;
 
+    // The padding isn't enough for sites which are far from the origin of their unit cell
+    for (auto const& point : shape.vertices) {
+        for (auto const& pair : lattice.get_sublattices()) {
+            Cartesian const origin = point - lattice.get_offset() - pair.second.position;
+            auto const v = lattice.translate_coordinates(origin);
+            for (auto n = 0; n < ndim; ++n) {
+                lower_bound[n] = std::min(lower_bound[n], static_cast<int>(std::floor(v[n])));
+                upper_bound[n] = std::max(upper_bound[n], static_cast<int>(std::ceil(v[n])));
+            }
+        }
+    }
+
     return {lower_bound, upper_bound};
 }
 
-- 
2.43.0


From d0c60af0cc2d0eed55ce1081b3ec84226d361c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:56 +0000
Subject: [PATCH 13/32] fix: apply hopping terms with more elements than the
 hopping buffer

---
 cppcore/include/hamiltonian/HamiltonianModifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index a8b6a9b..bb460e1 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -234,7 +234,7 @@ struct HoppingBuffer {
     CartesianArray pos2; ///< hopping destination position
 
     HoppingBuffer(MatrixXcd const& unit_hopping, idx_t block_size)
-        : size(std::min(max_buffer_size / unit_hopping.size(), block_size)),
+        : size(std::min(std::max(max_buffer_size / unit_hopping.size(), idx_t{1}), block_size)),
           unit_hopping(num::force_cast<scalar_t>(unit_hopping)),
           hoppings(size * unit_hopping.size()),
           pos1(size), pos2(size) {}
-- 
2.43.0


From b079363d1949fa4519af2fab970f9e26fe721c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 14/32] fix: allow leads to require complex numbers on their
 own

---
 cppcore/src/Model.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 9365ac9..aa23fe3 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -119,7 +119,14 @@ Hamiltonian const& Model::hamiltonian() const {
 Leads const& Model::leads() const {
     system();
     hamiltonian();
-    _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    try {
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    } catch (ComplexOverride const&) {
+        // The modifiers may be real within the system but complex at the leads
+        complex_override = true;
+        _leads.clear_hamiltonian();
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    }
     return _leads;
 }
 
-- 
2.43.0


From f2c39baba22acd1a29f40c16ba06ee1a5187b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:27 +0000
Subject: [PATCH 15/32] fix: replace the lattice offset together with the shape

---
 cppcore/src/Model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index aa23fe3..242cc26 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -28,7 +28,8 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
-    lattice.set_offset(lattice.get_offset() + new_shape.lattice_offset);
+    // The new shape replaces the existing one -- this includes the offset
+    lattice.set_offset(lattice.get_offset() - shape.lattice_offset + new_shape.lattice_offset);
     shape = new_shape;
     clear_structure();
 }
-- 
2.43.0


From 206c9513d1d0ad8f0ca0eeb230022811f0f1933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:53 +0000
Subject: [PATCH 16/32] fix: don't keep some of the leads if the Hamiltonian of
 one fails to build

---
 cppcore/src/leads/Leads.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..fca56ac 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -24,9 +24,12 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    // Nothing is kept if one of them fails
+    auto pairs = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        pairs.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
     }
+    hamiltonians = std::move(pairs);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From 8ad37c52ab8707d774d5bb58aa4968b5c41693cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:45 +0000
Subject: [PATCH 17/32] fix: allow aliases of aliases

---
 cppcore/src/Lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 85f94f7..944e346 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id; // the original may be an alias itself
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
-- 
2.43.0


From 310f6d6618023c8bbca34f8e7971db490efd0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:45 +0000
Subject: [PATCH 18/32] fix: leave the lattice unchanged when an anonymous
 hopping is rejected

---
 cppcore/src/Lattice.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 944e346..a266fcd 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,6 +105,7 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
+    auto const original_size = hoppings.size();
     auto const hopping_name = [&] {
         // Look for an existing hopping ID with the same energy
         auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
@@ -121,7 +122,13 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         }
     }();
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    } catch (...) {
+        // Don't keep the new anonymous energy if the hopping itself is rejected
+        if (hoppings.size() > original_size) { hoppings.erase(hopping_name); }
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From 90da15425d7eec3ff82fba95d5f8b1afb35634cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 19/32] fix: translate coordinates of lattices which don't lie
 along x or in the xy plane

---
 cppcore/src/Lattice.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index a266fcd..8aa1f12 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -209,17 +209,22 @@ Cartesian Lattice::calc_position(Index3D index, string_view sublattice_name) con
 Vector3f Lattice::translate_coordinates(Cartesian position) const {
     auto const size = ndim();
     auto const lattice_matrix = [&]{
-        auto m = ColMajorMatrixX<float>(size, size);
+        auto m = ColMajorMatrixX<float>(3, size);
         for (auto i = 0; i < size; ++i) {
-            m.col(i) = vectors[i].head(size);
+            m.col(i) = vectors[i];
         }
         return m;
     }();
 
     // Solve `lattice_matrix * v = p`
-    auto const& p = position.head(size);
     auto v = Vector3f(0, 0, 0);
-    v.head(size) = lattice_matrix.colPivHouseholderQr().solve(p);
+    auto const qr = lattice_matrix.topRows(size).colPivHouseholderQr();
+    if (qr.rank() == size) {
+        v.head(size) = qr.solve(position.head(size));
+    } else {
+        // A 1D or 2D lattice doesn't need to lie along the x axis or in the xy plane
+        v.head(size) = lattice_matrix.colPivHouseholderQr().solve(position);
+    }
     return v;
 }
 
-- 
2.43.0


From d02a21fee4787f8397aa5869eb15fedf3083f051 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:57:39 +0000
Subject: [PATCH 20/32] fix: find_nearest reports when there are no sites
 instead of returning one of another sublattice

---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..7ba3643 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("There are no sites to choose from.");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 673d32f5da03c632eefcfca5e75e627e5f545546 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:57:39 +0000
Subject: [PATCH 21/32] fix: reorder Hamiltonians which consist of disconnected
 parts

---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..125bb97 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -102,6 +102,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     auto slice_border_indices = std::vector<storage_idx_t>();
     slice_border_indices.push_back(1);
 
+    // All indices below this one are already mapped
+    auto first_unmapped = storage_idx_t{0};
+
     // Fill the reordered matrix row by row
     auto const h_view = sparse::make_loop(h);
     for (auto h2_row = 0; h2_row < system_size; ++h2_row) {
@@ -136,6 +139,13 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
             h2.insert(h2_row, h2_row) = -scale.b * inverted_a;
         }
 
+        // The remaining states aren't connected to any of the previous ones: pick the next one
+        if (h2_row + 1 == static_cast<idx_t>(index_queue.size()) && h2_row + 1 < system_size) {
+            while (reorder_map[first_unmapped] >= 0) { ++first_unmapped; }
+            reorder_map[first_unmapped] = static_cast<storage_idx_t>(index_queue.size());
+            index_queue.push_back(first_unmapped);
+        }
+
         // Reached the end of a slice
         if (h2_row == slice_border_indices.back() - 1) {
             slice_border_indices.push_back(static_cast<storage_idx_t>(index_queue.size()));
-- 
2.43.0


From 8874cdb88087347b8feb460ac30cd529ddcda0aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 22/32] fix: convert matrices without any nonzero elements to
 ELLPACK

---
 cppcore/include/numeric/ellmatrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index 482bb37..c16d27f 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -63,8 +63,9 @@ inline EllConstRef<scalar_t> ellref(EllMatrix<scalar_t> const& m) {
 /// Convert an Eigen CSR matrix to ELLPACK
 template<class scalar_t>
 num::EllMatrix<scalar_t> csr_to_ell(SparseMatrixX<scalar_t> const& csr) {
-    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(),
-                                        sparse::max_nnz_per_row(csr));
+    // At least one (zero) element per row, the ELLPACK algorithms rely on it
+    auto const nnz_per_row = std::max(sparse::max_nnz_per_row(csr), idx_t{1});
+    auto ell = num::EllMatrix<scalar_t>(csr.rows(), csr.cols(), nnz_per_row);
     auto const loop = sparse::make_loop(csr);
     for (auto row = 0; row < csr.rows(); ++row) {
         auto n = 0;
-- 
2.43.0


From 62b87244f60b40f1c0dcce3d07f0cc65f43de16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 23/32] fix: reject a Green's function index equal to the size
 of the Hamiltonian

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..dba2f9d 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -102,7 +102,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -115,9 +115,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From f1dd829c18df8f00d59ce12f6b9405297d5da42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 24/32] fix: reject a conductivity direction if either of its
 axes is unknown

---
 cppcore/src/KPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index dba2f9d..082bd03 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -132,7 +132,7 @@ ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broaden
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
     auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    if (direction.size() != 2 || direction.find_first_not_of(xyz) != std::string::npos) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From 47bbbe128bce722b2fbab06e7d2157a6be4dce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 25/32] fix: return nothing for no states instead of reading
 moments which were never computed

---
 cppcore/src/kpm/Core.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/kpm/Core.cpp b/cppcore/src/kpm/Core.cpp
index c7b5ae4..3fd16a7 100644
--- a/cppcore/src/kpm/Core.cpp
+++ b/cppcore/src/kpm/Core.cpp
@@ -56,6 +56,8 @@ ArrayXcd Core::moments(idx_t num_moments, VectorXcd const& alpha, VectorXcd cons
 }
 
 ArrayXXdCM Core::ldos(std::vector<idx_t> const& idx, ArrayXd const& energy, double broadening) {
+    if (idx.empty()) { return ArrayXXdCM(energy.size(), 0); }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
     auto const num_indices = static_cast<idx_t>(idx.size());
@@ -95,7 +97,8 @@ ArrayXcd Core::greens(idx_t row, idx_t col, ArrayXd const& energy, double broade
 
 std::vector<ArrayXcd> Core::greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                           ArrayXd const& energy, double broadening) {
-    assert(!cols.empty());
+    if (cols.empty()) { return {}; }
+
     auto const scale = bounds.scaling_factors();
     auto const num_moments = config.kernel.required_num_moments(broadening / scale.a);
 
-- 
2.43.0


From 978767568ba3a6638c23cec750c410f19577a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:22 +0000
Subject: [PATCH 26/32] fix: keep the KPM model and Hamiltonian in step when
 the new model can't be built

---
 cppcore/src/KPM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index 082bd03..4bb4bd3 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -8,6 +8,7 @@ KPM::KPM(Model const& model, kpm::Compute const& compute, kpm::Config const& con
     : model(model.eval()), core(kpm::Core(model.hamiltonian(), compute, config)) {}
 
 void KPM::set_model(Model const& new_model) {
+    new_model.eval(); // may throw: keep the current model and Hamiltonian in that case
     model = new_model;
     core.set_hamiltonian(model.hamiltonian());
 }
-- 
2.43.0


From 4f639c616d971acea6dc9fb9c028a11ba200deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:04 +0000
Subject: [PATCH 27/32] fix: a view of a mutable std::vector has one dimension

---
 cppcore/include/numeric/dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/numeric/dense.hpp b/cppcore/include/numeric/dense.hpp
index 222a756..e538735 100644
--- a/cppcore/include/numeric/dense.hpp
+++ b/cppcore/include/numeric/dense.hpp
@@ -306,7 +306,7 @@ ArrayConstRef arrayref(std::vector<scalar_t> const& v) {
 
 template<class scalar_t>
 ArrayRef arrayref(std::vector<scalar_t>& v) {
-    return arrayref(v.data(), 1, true, static_cast<idx_t>(v.size()));
+    return arrayref(v.data(), static_cast<idx_t>(v.size()));
 }
 
 /// Range from 0 to `size` of scalar type `T` which does not have to be an integral type
-- 
2.43.0


From 08a20c03fc4dbf6cdd7cb8bf177667d54e823cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:04 +0000
Subject: [PATCH 28/32] fix: give the values and indices of an ELLPACK matrix
 the same pitch

---
 cppcore/include/numeric/ellmatrix.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/numeric/ellmatrix.hpp b/cppcore/include/numeric/ellmatrix.hpp
index c16d27f..c9c6304 100644
--- a/cppcore/include/numeric/ellmatrix.hpp
+++ b/cppcore/include/numeric/ellmatrix.hpp
@@ -26,8 +26,11 @@ public:
     EllMatrix() = default;
     EllMatrix(idx_t rows, idx_t cols, idx_t nnz_per_row)
         : _rows(rows), _cols(cols), nnz_per_row(nnz_per_row) {
-        data.resize(aligned_size<scalar_t, align_bytes>(rows), nnz_per_row);
-        indices.resize(aligned_size<storage_idx_t, align_bytes>(rows), nnz_per_row);
+        // The values and the indices have the same pitch: EllConstRef relies on it
+        auto const pitch = std::max(aligned_size<scalar_t, align_bytes>(rows),
+                                    aligned_size<storage_idx_t, align_bytes>(rows));
+        data.resize(pitch, nnz_per_row);
+        indices.resize(pitch, nnz_per_row);
     }
 
     idx_t rows() const { return _rows; }
-- 
2.43.0


From 134c33c574cc196f1f84a665a443491ff0d3d891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:21 +0000
Subject: [PATCH 29/32] fix: a chemical potential equal to a sampled energy at
 zero temperature

The Fermi-Dirac exponent was 0 * infinity, so the conductivity came out as NaN.
---
 cppcore/include/kpm/reconstruct.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/kpm/reconstruct.hpp b/cppcore/include/kpm/reconstruct.hpp
index 96422fe..56e362c 100644
--- a/cppcore/include/kpm/reconstruct.hpp
+++ b/cppcore/include/kpm/reconstruct.hpp
@@ -1,6 +1,8 @@
 #pragma once
 #include "kpm/Bounds.hpp"
 
+#include <limits>
+
 namespace cpb { namespace kpm {
 
 /// Reconstruct function `F` from the given moments and function arguments.
@@ -99,7 +101,9 @@ struct KuboBastin {
         using complex_t = num::get_complex_t<scalar_t>;
 
         auto const scale = Scale<real_t>(s);
-        auto const inv_kbt_sc = static_cast<real_t>(scale.a / (constant::kb * temperature));
+        // Must be finite: at zero temperature `fermi_dirac` is a step function with 1/2 at `mu`
+        auto const inv_kbt_sc = std::min(static_cast<real_t>(scale.a / (constant::kb * temperature)),
+                                         std::numeric_limits<real_t>::max());
         auto const num_moments = moments.rows();
         auto const scaled_chemical_potential = scale(chemical_pot.cast<real_t>());
         auto const scaled_energy_samples = scale(energy_samples.cast<real_t>());
-- 
2.43.0


From 8def78b5d4e3eccb049e984368f2611f40d540eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:54 +0000
Subject: [PATCH 30/32] fix: integrate the Kubo-Bastin formula with the
 trapezoidal rule's own step

The step between n samples is range / (n - 1). With range / n the integral of a
constant came out (n - 1) / n times too small.
---
 cppcore/include/kpm/reconstruct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/kpm/reconstruct.hpp b/cppcore/include/kpm/reconstruct.hpp
index 56e362c..f37cd0e 100644
--- a/cppcore/include/kpm/reconstruct.hpp
+++ b/cppcore/include/kpm/reconstruct.hpp
@@ -124,7 +124,7 @@ struct KuboBastin {
         };
 
         auto const coeff = (scaled_energy_samples.maxCoeff() - scaled_energy_samples.minCoeff())
-                           / static_cast<real_t>(2 * scaled_energy_samples.size());
+                           / static_cast<real_t>(2 * std::max(scaled_energy_samples.size() - 1, idx_t{1}));
 
         auto integrate = [&](ArrayX<complex_t> const& func) {
             return coeff * (real_t{2} * func.sum() - func(0) - func(func.size() - 1));
-- 
2.43.0


From e9df27757078225f022af87e8c2893fff9f48902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 31/32] fix: keep the solver's model and Hamiltonian in step
 when the new model can't be built

---
 cppcore/src/solver/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cppcore/src/solver/Solver.cpp b/cppcore/src/solver/Solver.cpp
index beda24f..99826c5 100644
--- a/cppcore/src/solver/Solver.cpp
+++ b/cppcore/src/solver/Solver.cpp
@@ -49,6 +49,7 @@ BaseSolver::BaseSolver(Model const& model, MakeStrategy const& make_strategy)
       strategy(make_strategy(model.hamiltonian())) {}
 
 void BaseSolver::set_model(Model const& new_model) {
+    new_model.eval(); // may throw: keep the current model and Hamiltonian in that case
     is_solved = false;
     model = new_model;
 
-- 
2.43.0


From e9266cacee528999c939de62c768ed1561160c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:31 +0000
Subject: [PATCH 32/32] fix: keep leads attached to their sites when sites are
 removed after a generator

---
 cppcore/include/leads/Leads.hpp     |  3 +++
 cppcore/include/leads/Structure.hpp |  3 +++
 cppcore/src/Model.cpp               | 10 +++++++++-
 cppcore/src/leads/Leads.cpp         |  6 ++++++
 cppcore/src/leads/Structure.cpp     | 11 +++++++++++
 5 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/cppcore/include/leads/Leads.hpp b/cppcore/include/leads/Leads.hpp
index be618c0..d0c8c83 100644
--- a/cppcore/include/leads/Leads.hpp
+++ b/cppcore/include/leads/Leads.hpp
@@ -48,6 +48,9 @@ public:
     /// Create the structure of each lead
     void make_structure(Foundation const& foundation);
 
+    /// Follow the main system when its invalid sites are removed
+    void remove_invalid(ArrayX<bool> const& is_valid);
+
     /// Create a Hamiltonian pair for each lead
     void make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                           bool is_double, bool is_complex);
diff --git a/cppcore/include/leads/Structure.hpp b/cppcore/include/leads/Structure.hpp
index 33409c2..78f2368 100644
--- a/cppcore/include/leads/Structure.hpp
+++ b/cppcore/include/leads/Structure.hpp
@@ -15,6 +15,9 @@ struct Structure {
 
     Structure(Foundation const& foundation, Spec const& spec);
 
+    /// Update the indices for the removal of all sites of the main system which are not valid
+    void remove_invalid(ArrayX<bool> const& is_valid);
+
     /// Return the lead index corresponding to the main system Hamiltonian index
     int lead_index(int system_index) const {
         auto const it = std::find(indices.begin(), indices.end(), system_index);
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 242cc26..7d3c015 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -176,6 +176,7 @@ std::shared_ptr<System> Model::make_system() const {
         apply(modifier, foundation);
     }
 
+    _leads.clear_structure();
     _leads.create_attachment_area(foundation);
     _leads.make_structure(foundation);
 
@@ -185,11 +186,18 @@ std::shared_ptr<System> Model::make_system() const {
         detail::populate_boundaries(*sys, foundation, symmetry);
     }
 
+    // The leads need to follow when sites are removed and the rest are renumbered
+    auto const remove_invalid = [&] {
+        _leads.remove_invalid(sys->is_valid);
+        detail::remove_invalid(*sys);
+    };
+
     for (auto const& modifier : system_modifiers) {
+        if (is_generator(modifier)) { remove_invalid(); }
         apply(modifier, *sys);
     }
 
-    detail::remove_invalid(*sys);
+    remove_invalid();
 
     if (sys->num_sites() == 0) { throw std::runtime_error{"Impossible system: 0 sites"}; }
 
diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index fca56ac..3f0b2d8 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -18,6 +18,12 @@ void Leads::make_structure(Foundation const& foundation) {
     }
 }
 
+void Leads::remove_invalid(ArrayX<bool> const& is_valid) {
+    for (auto& structure : structures) {
+        structure.remove_invalid(is_valid);
+    }
+}
+
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
                              bool is_double, bool is_complex) {
     if (!hamiltonians.empty()) {
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index da7c08c..9a11f4b 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -83,4 +83,15 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
     }
 }
 
+void Structure::remove_invalid(ArrayX<bool> const& is_valid) {
+    if (is_valid.size() == 0) { return; }
+
+    for (auto& index : indices) {
+        if (!is_valid[index]) {
+            throw std::runtime_error("Can't attach lead: partially misses main structure");
+        }
+        index = static_cast<int>(is_valid.head(index).count());
+    }
+}
+
 }} // namespace cpb::leads
-- 
2.43.0

