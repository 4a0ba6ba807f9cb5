From c2e84aa60efa41ca67c3f4f2e9645aeee919811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 01/27] fix: CylinderX::Contains compared a length with the
 squared radius

---
 src/CSGSurface.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..7db0f45 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -164,11 +164,9 @@ Real CylinderX::Distance(
 bool CylinderX::Contains(const Point& p) const noexcept {
   // axis of the cylinder
   const auto w = Direction{1, 0, 0};
-  // square norm of p
-  const auto pp = p.Dot(p);
-  // component of position p along w
-  const auto pw = p.Dot(w);
+  // component of position p perpendicular to w
+  const Point perp{p - p.Dot(w) * w};
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return perp.Dot(perp) < radius * radius;
 }
-- 
2.43.0


From 9ba4fa53628ffb8dd7ead189030675c3bd292f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 02/27] fix: evaluations were accepted at any temperature below
 their own

---
 src/ContinuousEvaluation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index db8f13a..d6da8b5 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,6 +4,8 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
+#include <cmath>
+
 // ContinuousEvaluation
 
 //// public
@@ -15,6 +17,7 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = (requested - temperature) / temperature;
+  const auto relative_error =
+      std::abs(requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
-- 
2.43.0


From 9cb09f81504ddf92409daeb8cf3313596679bcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 03/27] fix: logarithmic bins misplaced nonpositive values and
 accepted bases up to one

---
 src/Bins.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..7ef58eb 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -95,7 +95,14 @@ std::string LinspaceBins::to_string() const noexcept {
 
 LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
     : n_bins{logspace_node.attribute("bins").as_ullong() + 2},
-      base{logspace_node.attribute("base").as_double(10)},
+      base{[&logspace_node]() {
+        const auto base = logspace_node.attribute("base").as_double(10);
+        if (!(base > 1)) {
+          throw std::runtime_error(
+              logspace_node.path() + ": base must be strictly greater than 1");
+        }
+        return base;
+      }()},
       log_lower_bound{logspace_node.attribute("min").as_double()},
       log_upper_bound{[this, &logspace_node]() {
         const auto log_upper_bound = logspace_node.attribute("max").as_double();
@@ -110,6 +117,10 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
 size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
+  if (v <= 0) {
+    // below any finite boundary, logarithm is undefined
+    return 0;
+  }
   const auto log_v = std::log(v) / std::log(base);
   if (log_v < log_lower_bound) {
     return 0;
-- 
2.43.0


From b4abbbf965c07b662f84caf5d3a0abd9c7fd7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 04/27] fix: errors in bins, perturbations, sensitivities and
 thermal data terminated the program

---
 src/Bins.cpp              | 2 +-
 src/Bins.hpp              | 2 +-
 src/Estimator.cpp         | 2 +-
 src/Estimator.hpp         | 2 +-
 src/Perturbation.cpp      | 4 ++--
 src/Perturbation.hpp      | 4 ++--
 src/Scorable.cpp          | 3 +--
 src/Scorable.hpp          | 2 +-
 src/ThermalScattering.cpp | 6 +++---
 src/ThermalScattering.hpp | 2 +-
 10 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 7ef58eb..47e3473 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -184,7 +184,7 @@ std::string BoundaryBins::to_string() const noexcept {
 
 //// public
 
-ParticleBins::ParticleBins(const pugi::xml_node& bins_node) noexcept
+ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
       direction{[&bins_node]() noexcept {
         const auto& cosine_node = bins_node.child("cosine");
diff --git a/src/Bins.hpp b/src/Bins.hpp
index 4a13170..e442420 100644
--- a/src/Bins.hpp
+++ b/src/Bins.hpp
@@ -132,7 +132,7 @@ private:
 class ParticleBins {
 public:
   /// @brief Constructs a ParticleBins from a `bins` node of an XML document
-  ParticleBins(const pugi::xml_node& bins_node) noexcept;
+  ParticleBins(const pugi::xml_node& bins_node);
   /// @brief Total number of bins used
   size_t size() const noexcept;
   /// @brief Maps a point in @ref estimators_phase_space "phase space" @f$ X
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..a742ce2 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -75,7 +75,7 @@ Estimator& Estimator::operator+=(const Estimator& other) noexcept {
 
 Estimator::Estimator(
     const pugi::xml_node& estimator_node,
-    const PerturbationSet& perturbations) noexcept
+    const PerturbationSet& perturbations)
     : Scorable{
       estimator_node.attribute("name").as_string(),
       estimator_node.child("bins")},
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index 63f7c35..6ced3f3 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -46,7 +46,7 @@ protected:
   /// @brief Constructs an Estimator from an XML node
   Estimator(
       const pugi::xml_node& estimator_node,
-      const PerturbationSet& perturbations) noexcept;
+      const PerturbationSet& perturbations);
 
 private:
   // Sensitivity objects which depend on this Estimator
diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..9f7c358 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -20,7 +20,7 @@
 //// public
 
 std::unique_ptr<Perturbation> Perturbation::Create(
-    const pugi::xml_node& perturbation_node, const World& world) noexcept {
+    const pugi::xml_node& perturbation_node, const World& world) {
   const std::string perturbation_type = perturbation_node.name();
   if (perturbation_type == "total") {
     return std::make_unique<TotalCrossSectionPerturbation>(
@@ -87,7 +87,7 @@ Real TotalCrossSectionPerturbation::Scatter(
 //// public
 
 PerturbationSet::PerturbationSet(
-    const pugi::xml_node& perturbations_node, const World& world) noexcept
+    const pugi::xml_node& perturbations_node, const World& world)
     : perturbations{[&perturbations_node, &world]() {
         std::vector<std::unique_ptr<const Perturbation>> result;
         for (const auto& perturbation_node : perturbations_node) {
diff --git a/src/Perturbation.hpp b/src/Perturbation.hpp
index 4ccc600..d7a6849 100644
--- a/src/Perturbation.hpp
+++ b/src/Perturbation.hpp
@@ -25,7 +25,7 @@ public:
   /// @brief Factory method to create a new Perturbation from a perturbation
   ///        node of an XML document
   static std::unique_ptr<Perturbation>
-  Create(const pugi::xml_node& perturbation_node, const World& world) noexcept;
+  Create(const pugi::xml_node& perturbation_node, const World& world);
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Perturbation() noexcept;
   /// @brief Create a Sensitivity estimator from a `perturbation` child of a
@@ -84,7 +84,7 @@ public:
   /// @brief Constructs a PerturbationSet from a `perturbations` node of an XML
   ///        document
   PerturbationSet(
-      const pugi::xml_node& perturbations_node, const World& world) noexcept;
+      const pugi::xml_node& perturbations_node, const World& world);
   /// @brief Returns the Perturbation with the given name
   /// @exception std::runtime_error Perturbation with given name not found
   /// @todo Template along with EstimatorSet::FindEstimatorByName
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cfcf088..cb5566d 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -14,8 +14,7 @@
 
 //// public
 
-Scorable::Scorable(
-    const std::string& name, const pugi::xml_node& bins_node) noexcept
+Scorable::Scorable(const std::string& name, const pugi::xml_node& bins_node)
     : name{name}, bins{std::make_shared<ParticleBins>(bins_node)},
       scores(bins->size(), 0), square_scores(bins->size(), 0) {}
 
diff --git a/src/Scorable.hpp b/src/Scorable.hpp
index 3c8b756..7ed79ca 100644
--- a/src/Scorable.hpp
+++ b/src/Scorable.hpp
@@ -28,7 +28,7 @@ class Scorable {
 public:
   /// @brief Constructs a Scorable from a `bins` node of an XML document
   /// @details All scores are initialized to zero
-  Scorable(const std::string& name, const pugi::xml_node& bins_node) noexcept;
+  Scorable(const std::string& name, const pugi::xml_node& bins_node);
   /// @brief Constructs an Scorable from an existing estimator and
   ///        perturbation
   /// @details All scores are initialized to zero
diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..787be33 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -22,14 +22,14 @@
 
 //// public
 
-ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
+ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
     : majorant{HDF5DataSet<1>{tsl_node.attribute("majorant").as_string()}
                    .ToContinuousMap()},
       scatter_xs_T{tsl_node.attribute("total_T").as_string()},
       scatter_xs_S{tsl_node.attribute("total_S").as_string()},
       scatter_xs_E{tsl_node.attribute("total_E").as_string()},
       // IIFE
-      beta_partitions{[&tsl_node]() noexcept {
+      beta_partitions{[&tsl_node]() {
         std::vector<BetaPartition> result;
         for (const auto& partition_node : tsl_node.child("beta_partitions")) {
           result.emplace_back(partition_node);
@@ -62,7 +62,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
         return result;
       }()},
       // IIFE
-      alpha_partitions{[&tsl_node]() noexcept {
+      alpha_partitions{[&tsl_node]() {
         std::vector<AlphaPartition> result;
         for (const auto& partition_node : tsl_node.child("alpha_partitions")) {
           result.emplace_back(partition_node);
diff --git a/src/ThermalScattering.hpp b/src/ThermalScattering.hpp
index 25b2d06..e45d3d2 100644
--- a/src/ThermalScattering.hpp
+++ b/src/ThermalScattering.hpp
@@ -28,7 +28,7 @@ public:
   /// @brief Dimensionless momentum transfer
   using Alpha = Real;
   /// @brief Constructs thermal scattering data from a `tsl` node
-  ThermalScattering(const pugi::xml_node& tsl_node) noexcept;
+  ThermalScattering(const pugi::xml_node& tsl_node);
   /// @brief Returns true if Particle is Type::neutron and is strictly below
   ///        the cutoff energy
   bool IsValid(const Particle& p) const noexcept;
-- 
2.43.0


From 6f3a31c212dd35fe8f8324e23dc48751a08d6cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 05/27] fix: a zero reference direction for cosine bins was
 accepted

---
 src/Bins.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 47e3473..a40cb8e 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -186,15 +186,20 @@ std::string BoundaryBins::to_string() const noexcept {
 
 ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
-      direction{[&bins_node]() noexcept {
+      direction{[&bins_node]() -> std::optional<Direction> {
         const auto& cosine_node = bins_node.child("cosine");
-        return cosine_node
-                   ? std::optional<Direction>(
-                         std::in_place,
-                         cosine_node.attribute("u").as_double(),
-                         cosine_node.attribute("v").as_double(),
-                         cosine_node.attribute("w").as_double())
-                   : std::nullopt;
+        if (!cosine_node) {
+          return std::nullopt;
+        }
+        const Point reference{
+            cosine_node.attribute("u").as_double(),
+            cosine_node.attribute("v").as_double(),
+            cosine_node.attribute("w").as_double()};
+        if (reference == Point{0, 0, 0}) {
+          throw std::runtime_error(
+              cosine_node.path() + ": reference direction has zero length");
+        }
+        return Direction{reference};
       }()},
       cosine{Bins::Create(bins_node.child("cosine").first_child())},
       energy{Bins::Create(bins_node.child("energy").first_child())},
-- 
2.43.0


From 595c964cf9672ba5eb48ac98b85c81e4d49c08bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 06/27] fix: delta tracking accepted collisions with the cross
 section of the previous site

---
 src/TransportMethod.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..ce304cb 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -103,18 +103,20 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // cross sections must be evaluated at the site of the collision
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From 5c0d8791108b306c32f1fa1c9a50a1f319e0799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:30 +0000
Subject: [PATCH 07/27] fix: solving a fixed source problem again returned
 empty tallies

---
 src/FixedSource.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index fee2165..b78ed1a 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -20,6 +20,7 @@ FixedSource::FixedSource(const pugi::xml_node& root)
     : Driver{root}, source{root.child("problemtype").child("fixedsource")} {};
 
 EstimatorSet FixedSource::Solve() {
+  histories_elapsed = 0;
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
-- 
2.43.0


From 1d94f3f87dad852dc07e681768d550b24f991d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 08/27] fix: results depended on the addresses of nuclides and
 surfaces

---
 src/Cell.cpp     |  6 ++++++
 src/Cell.hpp     | 11 +++++++++--
 src/Material.cpp |  8 +++++++-
 src/Material.hpp | 11 ++++++++++-
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 99436ed..877de29 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -54,6 +54,12 @@ bool Cell::operator==(const Cell& rhs) const noexcept { return this == &rhs; }
 
 //// private
 
+bool Cell::CompareNames::operator()(
+    const std::shared_ptr<const CSGSurface>& lhs,
+    const std::shared_ptr<const CSGSurface>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 Cell::SurfaceSenses Cell::AssignSurfaceSenses(
     const pugi::xml_node& cell_node,
     const CSGSurfaceVector& all_surfaces) noexcept {
diff --git a/src/Cell.hpp b/src/Cell.hpp
index 1172c61..d000947 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -26,8 +26,15 @@ private:
   using CSGSurfaceVector = std::vector<std::shared_ptr<const CSGSurface>>;
   // Map from (polymorphic) CSGSurface object to a bool corresponding to the
   // "sense" of the CSGSurface. Multiple Cell objects can share the same
-  // CSGSurface object.
-  using SurfaceSenses = std::map<std::shared_ptr<const CSGSurface>, bool>;
+  // CSGSurface object. Ordered by name rather than address so that results do
+  // not depend on the layout of memory.
+  struct CompareNames {
+    bool operator()(
+        const std::shared_ptr<const CSGSurface>& lhs,
+        const std::shared_ptr<const CSGSurface>& rhs) const noexcept;
+  };
+  using SurfaceSenses =
+      std::map<std::shared_ptr<const CSGSurface>, bool, CompareNames>;
   // A vector of Material objects. Multiple Cell objects can share the same
   // Material object.
   using MaterialVector = std::vector<std::shared_ptr<const Material>>;
diff --git a/src/Material.cpp b/src/Material.cpp
index 9a5bbdf..a02bb74 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -9,10 +9,16 @@
 #include <stdexcept>
 #include <type_traits>
 
-// Cell
+// Material
 
 //// public
 
+bool Material::CompareNames::operator()(
+    const std::shared_ptr<const Nuclide>& lhs,
+    const std::shared_ptr<const Nuclide>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 pugi::xml_node Material::FindNode(
     const pugi::xml_node& root, const std::string& material_name) {
   const auto& materials_node{root.child("materials")};
diff --git a/src/Material.hpp b/src/Material.hpp
index 63338c0..996447b 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -16,8 +16,17 @@ class Particle;
 /// @details Nuclear properties are in NuclearData objects
 class Material {
 public:
+  /// @brief Orders Nuclide objects by name rather than address so that results
+  ///        do not depend on the layout of memory
+  struct CompareNames {
+    /// @brief Returns true if the name of lhs precedes the name of rhs
+    bool operator()(
+        const std::shared_ptr<const Nuclide>& lhs,
+        const std::shared_ptr<const Nuclide>& rhs) const noexcept;
+  };
   /// @brief Nuclide objects and their associated atom fractions
-  using AtomFractions = std::map<std::shared_ptr<const Nuclide>, Real>;
+  using AtomFractions =
+      std::map<std::shared_ptr<const Nuclide>, Real, CompareNames>;
   /// @brief Find `material` node with given name in XML document
   /// @param root Root node of existing XML document
   /// @param material_name Value of `name` attribute of `material` node
-- 
2.43.0


From dc59f40dd108d0582e2d03a5032f71c626125db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 09/27] fix: creating a second driver changed the tracking
 method of the first

---
 src/Driver.cpp      | 3 ++-
 src/Driver.hpp      | 2 ++
 src/FixedSource.cpp | 2 ++
 src/Particle.cpp    | 2 +-
 src/Particle.hpp    | 2 +-
 5 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Driver.cpp b/src/Driver.cpp
index 7455389..a34290c 100644
--- a/src/Driver.cpp
+++ b/src/Driver.cpp
@@ -38,6 +38,7 @@ Driver::Driver(const pugi::xml_node& root)
     : world{root}, perturbations{root.child("perturbations"), world},
       batchsize(
           std::stoi(root.child("general").child("histories").child_value())),
+      transport_method{TransportMethod::Create(root, world)},
       seed(std::stoi(
           root.child("general").child("seed")
               ? root.child("general").child("seed").child_value()
@@ -48,7 +49,7 @@ Driver::Driver(const pugi::xml_node& root)
       threads{
           std::stoul(root.child("general").child("threads").child_value())} {
   // All Particle objects will use the selected TransportMethod
-  Particle::transport_method = TransportMethod::Create(root, world);
+  Particle::transport_method = transport_method;
 }
 
 Driver::~Driver() noexcept {}
diff --git a/src/Driver.hpp b/src/Driver.hpp
index 168cec7..9212551 100644
--- a/src/Driver.hpp
+++ b/src/Driver.hpp
@@ -42,6 +42,8 @@ public:
   const RNG::result_type batchsize;
 
 protected:
+  /// @brief The TransportMethod requested by the problem
+  const std::shared_ptr<const TransportMethod> transport_method;
   /// @brief Histories are assigned a seed in [seed, seed + batchsize)
   const RNG::result_type seed;
   /// @brief Initial value of an EstimatorSet used to initialize workers
diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index b78ed1a..11b16fc 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -21,6 +21,8 @@ FixedSource::FixedSource(const pugi::xml_node& root)
 
 EstimatorSet FixedSource::Solve() {
   histories_elapsed = 0;
+  // another Driver may have been created since this one
+  Particle::transport_method = transport_method;
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3a59b98..f8d52f8 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -31,7 +31,7 @@ Particle::Type Particle::ToType(const std::string& name) noexcept {
   };
 }
 
-std::unique_ptr<const TransportMethod> Particle::transport_method;
+std::shared_ptr<const TransportMethod> Particle::transport_method;
 
 Particle::Particle(
     const Point& position, const Direction& direction, const Energy& energy,
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 178a9b4..ce297b9 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -44,7 +44,7 @@ public:
   /// @brief Helper function to convert from std::string to Type
   static Type ToType(const std::string& name) noexcept;
   /// @brief The TransportMethod used by all Particle objects
-  static std::unique_ptr<const TransportMethod> transport_method;
+  static std::shared_ptr<const TransportMethod> transport_method;
   /// @brief Member constructor. Explicitly assigns phase-space members.
   Particle(
       const Point& position, const Direction& direction, const Energy& energy,
-- 
2.43.0


From f1232858366d8714fc8d8670c35ea4da677bbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 10/27] fix: distance to a cylinder lost precision far along
 its axis

---
 src/CSGSurface.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index 7db0f45..c8405a5 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -149,16 +149,13 @@ Real CylinderX::Distance(
     const Point& origin, const Direction& direction) const noexcept {
   // axis of the cylinder
   const auto w = Direction{1, 0, 0};
-  // square norm of origin p
-  const auto pp = origin.Dot(origin);
-  // component of origin p along w
-  const auto pw = origin.Dot(w);
-  // component of direction d along w
-  const auto dw = direction.Dot(w);
-  // component of origin p along direction d
-  const auto pd = origin.Dot(direction);
+  // components of origin p and direction d perpendicular to w; subtracting
+  // squares instead would lose precision far along the axis
+  const Point p_perp{origin - origin.Dot(w) * w};
+  const Point d_perp{direction - direction.Dot(w) * w};
   return SolveQuadratic(
-      1 - dw * dw, 2 * (pd - pw * dw), pp - pw * pw - radius * radius);
+      d_perp.Dot(d_perp), 2 * p_perp.Dot(d_perp),
+      p_perp.Dot(p_perp) - radius * radius);
 }
 
 bool CylinderX::Contains(const Point& p) const noexcept {
-- 
2.43.0


From 7dd3566322a768ece5d97a794e368baa884170ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 11/27] fix: particles far from the origin or at grazing
 incidence failed to cross surfaces

---
 src/TransportMethod.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index ce304cb..961837f 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -1,5 +1,6 @@
 #include "TransportMethod.hpp"
 
+#include "CSGSurface.hpp"
 #include "Cell.hpp"
 #include "Constants.hpp"
 #include "Estimator.hpp"
@@ -9,6 +10,7 @@
 #include "World.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <iosfwd>
 #include <random>
@@ -16,6 +18,29 @@
 #include <string>
 #include <type_traits>
 
+namespace {
+
+// Returns the distance which moves a Particle just past a CSGSurface that lies
+// a given distance ahead. A fixed nudge is lost to rounding far away from the
+// origin and at grazing incidence so it is increased until the Particle really
+// ends up on the other side.
+Real DistancePast(
+    const Particle& p, const CSGSurface& surface,
+    const Real distance) noexcept {
+  const auto max_nudge = 1e-6 * std::max(Real{1}, distance);
+  const bool sense = surface.Contains(p.GetPosition());
+  auto nudge = constants::nudge;
+  while (nudge < max_nudge &&
+         surface.Contains(
+             p.GetPosition() + p.GetDirection() * (distance + nudge)) ==
+             sense) {
+    nudge *= 2;
+  }
+  return distance + nudge;
+}
+
+} // namespace
+
 // TransportMethod
 
 //// public
@@ -65,7 +90,8 @@ Bank SurfaceTracking::Transport(
       nuclide.Interact(p);
     }
     else {
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(
+          DistancePast(p, *nearest_surface, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
@@ -97,7 +123,8 @@ Bank CellDeltaTracking::Transport(
         p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
     if (distance_to_surface_crossing < distance_to_collision) {
       // a surface crossing occurs
-      p.Stream(distance_to_surface_crossing + constants::nudge);
+      p.Stream(
+          DistancePast(p, *nearest_surface, distance_to_surface_crossing));
       p.SetCell(w.FindCellContaining(p.GetPosition()));
       p.current_surface = nearest_surface;
       p.event = p.GetCell().material ? Particle::Event::surface_cross
-- 
2.43.0


From 5c8e14a02b791f140690d62329aff18aedf378ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 12/27] fix: thermal scattering failed outside of the tabulated
 temperatures

---
 src/ThermalScattering.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 787be33..ddd4e0f 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -150,16 +150,18 @@ ThermalScattering::GetTotal(const Particle& p) const noexcept {
   // Linear interpolation in temperature
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
-  const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
-                                 : (T - T_lo) / (T_hi - T_lo);
+  const auto r_T =
+      below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
 
 void ThermalScattering::Scatter(Particle& p) const {
   // get incident energy and target temperature
   const auto E = std::get<ContinuousEnergy>(p.GetEnergy());
-  const Temperature T = p.GetCell().temperature->at(p.GetPosition());
+  // outside of tabulated temperatures, the nearest one is used
+  const auto& Ts = scatter_xs_T.GetAxis(0);
+  const Temperature T = std::clamp(
+      p.GetCell().temperature->at(p.GetPosition()), Ts.front(), Ts.back());
   // sample beta then alpha
   const auto beta = SampleBeta(p, E, T);
   const auto alpha = SampleAlpha(p, beta, E, T);
@@ -209,8 +211,8 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-  const Real sampled_beta =
-      beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
+  const Real r_T = below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
+  const Real sampled_beta = beta_T_lo + r_T * (beta_T_hi - beta_T_lo);
   return sampled_beta;
 }
 
@@ -250,8 +252,8 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
   // Linearly interpolate
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
-  const Real sampled_alpha =
-      alpha_T_lo + (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
+  const Real r_T = below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
+  const Real sampled_alpha = alpha_T_lo + r_T * (alpha_T_hi - alpha_T_lo);
   return sampled_alpha;
 }
 
-- 
2.43.0


From 1af8de2d2fbf9b4625b5ca34ef9e5632d61c9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 13/27] fix: thermal scattering selected the wrong beta grid or
 one out of range

---
 src/ThermalScattering.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index ddd4e0f..ba35bd5 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -352,22 +352,25 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
 
   // For any given abs_b, we have two beta grids to choose from:
   // b_lo <= abs_b < b_hi
+  // If there is no b_hi, we force the use of b_lo
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
   const bool snap_to_lower =
-      ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
-       (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
+      b_hi_i == betas.size() ||
+      (sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
+      (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T));
   // Handle case where abs_b is less than the smallest beta provided, b_min
   const bool snap_to_min = b_hi_i == 0;
   // Determine interpolation factor and sample a beta grid to use, b_s
-  const Real r = snap_to_lower ? 0
-                 : snap_to_min
-                     ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+  const Real r = snap_to_min     ? 1
+                 : snap_to_lower ? 0
+                                 : (abs_b - betas.at(b_hi_i - 1)) /
+                                       (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
-  Beta b_s = sgn_b * betas.at(b_s_i);
+  // If the smallest beta provided is not physical, the actual beta is used
+  const Beta b_s =
+      snap_to_min && snap_to_lower ? b : sgn_b * betas.at(b_s_i);
 
   // compute minimum and maximum possible value of alpha
   const auto sqrt_E = std::sqrt(E);
-- 
2.43.0


From d6e9d7302cbbedbf1849bc275796daa4b0a37ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 14/27] fix: fission secondaries repeated the random numbers of
 their siblings

---
 src/Particle.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index f8d52f8..9c82907 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -8,6 +8,7 @@
 #include "TransportMethod.hpp"
 
 #include <cassert>
+#include <cstdint>
 #include <map>
 #include <random>
 #include <stdexcept>
@@ -95,8 +96,13 @@ void Particle::SetCell(const Cell& c) noexcept { cell = &c; };
 
 void Particle::BankSecondaries(
     const Direction& direction, const Energy& energy) noexcept {
+  // The value returned by rng is also its state, so a secondary which is seeded
+  // with it would repeat the random numbers this Particle is about to use
+  std::seed_seq seed{rng()};
+  std::uint_least32_t scrambled;
+  seed.generate(&scrambled, &scrambled + 1);
   secondaries.emplace_back(
-      position, direction, energy, Type::neutron, rng(), cell);
+      position, direction, energy, Type::neutron, scrambled, cell);
 }
 
 void Particle::MoveSecondariesTo(Bank& bank) noexcept {
-- 
2.43.0


From 8792ee37714a737c3e4883d336d5fc896e5be97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 15/27] fix: standard deviation of nearly identical scores was
 not a number

---
 src/Scorable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cb5566d..6d20597 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -60,7 +60,9 @@ std::string Scorable::GetScoreAsString(const Real total_weight) const noexcept {
   for (size_t i = 0; i < scores.size(); i++) { // gross
     const auto& score = scores[i];
     const auto& square_score = square_scores[i];
-    sstream << std::sqrt(square_score - score * score / total_weight) /
+    // rounding may produce a slightly negative variance
+    sstream << std::sqrt(std::max(
+                   Real{0}, square_score - score * score / total_weight)) /
                    total_weight
             << ", ";
   }
-- 
2.43.0


From 823ccac20671d13cc5de56689e13b172b47f2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 16/27] fix: the optional total cross section of continuous
 nuclides was required

---
 src/Continuous.cpp | 17 +++++++++++------
 src/Continuous.hpp |  3 ++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index b6f867c..32e6dfb 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -20,15 +20,19 @@
 //// public
 
 Continuous::Continuous(const pugi::xml_node& particle_node)
-    : reactions{CreateReactions(particle_node)}, total{particle_node.child(
-                                                     "total")} {}
+    : reactions{CreateReactions(particle_node)},
+      total{particle_node.child("total")
+                ? std::make_optional<ContinuousEvaluation>(
+                      particle_node.child("total"))
+                : std::nullopt} {}
 
 MicroscopicCrossSection
 Continuous::GetMajorant(const Particle& p) const noexcept {
   // majorant cross section is assumed to occur at maximum temperature in Cell
   const auto majorant_temperature = p.GetCell().temperature->upper_bound;
-  if (!ReactionsModifyTotal(p) && total.IsValid(majorant_temperature)) {
-    return total.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+  if (!ReactionsModifyTotal(p) && total &&
+      total->IsValid(majorant_temperature)) {
+    return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
   else {
     return std::accumulate(
@@ -42,8 +46,9 @@ Continuous::GetMajorant(const Particle& p) const noexcept {
 MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
   const auto requested_temperature =
       p.GetCell().temperature->at(p.GetPosition());
-  if (!ReactionsModifyTotal(p) && total.IsValid(requested_temperature)) {
-    return total.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
+  if (!ReactionsModifyTotal(p) && total &&
+      total->IsValid(requested_temperature)) {
+    return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
   else {
     return std::accumulate(
diff --git a/src/Continuous.hpp b/src/Continuous.hpp
index 6667171..b48cc77 100644
--- a/src/Continuous.hpp
+++ b/src/Continuous.hpp
@@ -6,6 +6,7 @@
 #include "Interaction.hpp"
 
 #include <memory>
+#include <optional>
 #include <vector>
 
 namespace pugi {
@@ -43,5 +44,5 @@ private:
   // Cross section data for mutually exclusive reactions
   const std::vector<std::unique_ptr<const ContinuousReaction>> reactions;
   // Total cross section provided in nuclear data files
-  const ContinuousEvaluation total;
+  const std::optional<ContinuousEvaluation> total;
 };
-- 
2.43.0


From 2efc5002b4f5dccff0ceb9cb4f425b015a6b2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 17/27] fix: reactions were misweighted if their sum exceeds
 the provided total

---
 src/Continuous.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index 32e6dfb..536284c 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -60,8 +60,14 @@ MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
 }
 
 void Continuous::Interact(Particle& p) const noexcept {
+  // the provided total is not necessarily the sum of all reactions
+  const auto sum = std::accumulate(
+      reactions.cbegin(), reactions.cend(), MicroscopicCrossSection{0},
+      [&p](const auto& accumulated, const auto& reaction) {
+        return accumulated + reaction->GetCrossSection(p);
+      });
   const MicroscopicCrossSection threshold =
-      std::uniform_real_distribution{}(p.rng) * GetTotal(p);
+      std::uniform_real_distribution{}(p.rng) * sum;
   MicroscopicCrossSection accumulated{0};
   for (const auto& candidate : reactions) {
     accumulated += candidate->GetCrossSection(p);
-- 
2.43.0


From 707721720ab39049aa42326ad6cbec6bda6c604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 18/27] fix: numbers of histories and seeds too large for an
 int were rejected

---
 src/Driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Driver.cpp b/src/Driver.cpp
index a34290c..b3ce924 100644
--- a/src/Driver.cpp
+++ b/src/Driver.cpp
@@ -37,9 +37,9 @@ Driver::Create(const std::filesystem::path& xml_filepath) {
 Driver::Driver(const pugi::xml_node& root)
     : world{root}, perturbations{root.child("perturbations"), world},
       batchsize(
-          std::stoi(root.child("general").child("histories").child_value())),
+          std::stoull(root.child("general").child("histories").child_value())),
       transport_method{TransportMethod::Create(root, world)},
-      seed(std::stoi(
+      seed(std::stoull(
           root.child("general").child("seed")
               ? root.child("general").child("seed").child_value()
               : "1")),
-- 
2.43.0


From e31955a2f05691b71b85bfcfb5baf3a1e2f1f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 19/27] fix: copies of an estimator left their sensitivities
 tied to the original

---
 src/Estimator.cpp   |  4 ++--
 src/Sensitivity.cpp | 15 ++++++++++++---
 src/Sensitivity.hpp | 13 +++++++++++--
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index a742ce2..6119672 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -35,10 +35,10 @@ std::unique_ptr<Estimator> Estimator::Create(
 Estimator::Estimator(const Estimator& other) noexcept
     : Scorable(other),
       // IIFE
-      sensitivities{[&other]() noexcept {
+      sensitivities{[this, &other]() noexcept {
         std::vector<std::unique_ptr<Sensitivity>> result;
         for (const auto& sensitivity : other.sensitivities) {
-          result.push_back(sensitivity->Clone());
+          result.push_back(sensitivity->Clone(*this));
         }
         return result;
       }()} {}
diff --git a/src/Sensitivity.cpp b/src/Sensitivity.cpp
index f75f409..9cb16ea 100644
--- a/src/Sensitivity.cpp
+++ b/src/Sensitivity.cpp
@@ -39,6 +39,10 @@ Sensitivity::Sensitivity(
     : Scorable{estimator, perturbation}, estimator{estimator},
       perturbation{perturbation} {}
 
+Sensitivity::Sensitivity(
+    const Sensitivity& other, const Estimator& parent) noexcept
+    : Scorable(other), estimator{parent}, perturbation{other.perturbation} {}
+
 // CurrentTotalCrossSectionSensitivity
 
 //// public
@@ -47,9 +51,14 @@ CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity(
     const Estimator& estimator, const Perturbation& perturbation) noexcept
     : Sensitivity{estimator, perturbation} {}
 
-std::unique_ptr<Sensitivity>
-CurrentTotalCrossSectionSensitivity::Clone() const noexcept {
-  return std::make_unique<CurrentTotalCrossSectionSensitivity>(*this);
+CurrentTotalCrossSectionSensitivity::CurrentTotalCrossSectionSensitivity(
+    const CurrentTotalCrossSectionSensitivity& other,
+    const Estimator& parent) noexcept
+    : Sensitivity(other, parent) {}
+
+std::unique_ptr<Sensitivity> CurrentTotalCrossSectionSensitivity::Clone(
+    const Estimator& parent) const noexcept {
+  return std::make_unique<CurrentTotalCrossSectionSensitivity>(*this, parent);
 }
 
 Real CurrentTotalCrossSectionSensitivity::GetScore(
diff --git a/src/Sensitivity.hpp b/src/Sensitivity.hpp
index 168c705..2fec299 100644
--- a/src/Sensitivity.hpp
+++ b/src/Sensitivity.hpp
@@ -27,7 +27,9 @@ public:
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Sensitivity() noexcept;
   /// @brief Virtual constructor, used for deep copying a Sensitivity
-  virtual std::unique_ptr<Sensitivity> Clone() const noexcept = 0;
+  /// @param parent Estimator which the new Sensitivity will belong to
+  virtual std::unique_ptr<Sensitivity>
+  Clone(const Estimator& parent) const noexcept = 0;
   /// @brief Returns a string suitable for printing. Does not return bins since
   ///        the parent Estimator will print it.
   std::string to_string(const Real total_weight) const noexcept;
@@ -39,6 +41,8 @@ protected:
   ///        Perturbation
   Sensitivity(
       const Estimator& estimator, const Perturbation& perturbation) noexcept;
+  /// @brief Copies everything from other except for its parent Estimator
+  Sensitivity(const Sensitivity& other, const Estimator& parent) noexcept;
   /// @brief Estimator whose sensitivity to a Perturbation is being estimated
   const Estimator& estimator;
   /// @brief Perturbation whose effect on an Estimator is being estimated
@@ -53,9 +57,14 @@ public:
   ///        and Perturbation
   CurrentTotalCrossSectionSensitivity(
       const Estimator& estimator, const Perturbation& perturbation) noexcept;
+  /// @brief Copy constructor which assigns a new parent Estimator
+  CurrentTotalCrossSectionSensitivity(
+      const CurrentTotalCrossSectionSensitivity& other,
+      const Estimator& parent) noexcept;
   /// @brief Returns a pointer to a new instance of
   ///        CurrentTotalCrossSectionSensitivity
-  std::unique_ptr<Sensitivity> Clone() const noexcept override;
+  std::unique_ptr<Sensitivity>
+  Clone(const Estimator& parent) const noexcept override;
   /// @brief Implements Scorable method
   Real GetScore(const Particle& p) const noexcept override;
 };
-- 
2.43.0


From affc51c06f07cb48b25e28c3acc5ae9d0f5905ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 20/27] fix: the majorant was exceeded where cross sections
 change form within a cell

---
 src/Continuous.cpp         | 32 ++++++++++++++++++++++----------
 src/ContinuousReaction.cpp | 12 ++++++++----
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index 536284c..fae14cd 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -28,19 +28,31 @@ Continuous::Continuous(const pugi::xml_node& particle_node)
 
 MicroscopicCrossSection
 Continuous::GetMajorant(const Particle& p) const noexcept {
-  // majorant cross section is assumed to occur at maximum temperature in Cell
-  const auto majorant_temperature = p.GetCell().temperature->upper_bound;
-  if (!ReactionsModifyTotal(p) && total &&
-      total->IsValid(majorant_temperature)) {
+  // majorant cross section of reactions is assumed to occur at maximum
+  // temperature in Cell
+  const auto& temperature = *p.GetCell().temperature;
+  const bool may_use_total = !ReactionsModifyTotal(p) && total;
+  const bool is_valid_at_lower =
+      may_use_total && total->IsValid(temperature.lower_bound);
+  const bool is_valid_at_upper =
+      may_use_total && total->IsValid(temperature.upper_bound);
+  if (is_valid_at_lower && is_valid_at_upper) {
     return total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
   }
-  else {
-    return std::accumulate(
-        reactions.cbegin(), reactions.cend(), MicroscopicCrossSection{0},
-        [&p](const auto& accumulated, const auto& reaction) {
-          return accumulated + reaction->GetMajorant(p);
-        });
+  const auto sum = std::accumulate(
+      reactions.cbegin(), reactions.cend(), MicroscopicCrossSection{0},
+      [&p](const auto& accumulated, const auto& reaction) {
+        return accumulated + reaction->GetMajorant(p);
+      });
+  // the provided total may still be used somewhere in the Cell
+  if (may_use_total &&
+      (is_valid_at_lower || is_valid_at_upper ||
+       (temperature.lower_bound < total->temperature &&
+        total->temperature < temperature.upper_bound))) {
+    return std::max(
+        sum, total->xs.at(std::get<ContinuousEnergy>(p.GetEnergy())));
   }
+  return sum;
 }
 
 MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
diff --git a/src/ContinuousReaction.cpp b/src/ContinuousReaction.cpp
index 214b680..cd70dc3 100644
--- a/src/ContinuousReaction.cpp
+++ b/src/ContinuousReaction.cpp
@@ -9,6 +9,7 @@
 #include "ScalarField.hpp"
 #include "pugixml.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <random>
@@ -85,10 +86,13 @@ ContinuousScatter::GetMajorant(const Particle& p) const noexcept {
   }
   else if (IsFreeGasScatteringValid(p, T_max)) {
     // unadjust evaluated temperature then readjust cross section to requested
-    // temperature
-    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) /
-           GetFreeGasScatterAdjustment(p, evaluation.temperature) *
-           GetFreeGasScatterAdjustment(p, T_max);
+    // temperature; at lower temperatures in the Cell, the adjustment may not
+    // apply
+    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) *
+           std::max(
+               Real{1}, GetFreeGasScatterAdjustment(p, T_max) /
+                            GetFreeGasScatterAdjustment(
+                                p, evaluation.temperature));
   }
   else {
     return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
-- 
2.43.0


From ce933f30a7367733f7c6343ee86a5b8965162d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 21/27] fix: success was reported when the results could not be
 written

---
 src/minimc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/minimc.cpp b/src/minimc.cpp
index a43ae37..62a4ddc 100644
--- a/src/minimc.cpp
+++ b/src/minimc.cpp
@@ -16,10 +16,18 @@ int main(int argc, char* argv[]) {
   auto driver = Driver::Create(input_filepath);
   auto output_filepath = input_filepath;
   std::ofstream output_file {output_filepath.replace_extension(".out")};
+  if (!output_file) {
+    throw std::runtime_error(
+        "Cannot open output file " + output_filepath.string());
+  }
   const auto& result = driver->Solve();
   output_file << driver->batchsize << std::endl;
   output_file << result.to_string();
   output_file.close();
+  if (!output_file) {
+    throw std::runtime_error(
+        "Cannot write output file " + output_filepath.string());
+  }
   std::cout << "Output written to "
             << std::filesystem::absolute(output_filepath) << std::endl;
   return 0;
-- 
2.43.0


From 1ce2f3d413a800036673ead096fe179b897b79d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 22/27] fix: text interrupted by a comment was cut off at the
 comment

---
 src/XMLDocument.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index d9d556d..4fdeeee 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -83,7 +83,10 @@ XMLDocument::ValidateXML(const std::filesystem::path& xml_filepath) {
   parser.parse(xml_filepath.string().c_str());
   // pugixml DOM construction
   pugi::xml_document doc{};
-  if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
+  // text is taken as a whole also if comments interrupt it
+  if (auto result = doc.load_file(
+          xml_filepath.c_str(), pugi::parse_default | pugi::parse_merge_pcdata);
+      !result) {
     throw std::runtime_error(result.description());
   }
   return doc;
-- 
2.43.0


From e13c5aebf164ed354affdeeafab340b51635a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 23/27] fix: a source without a particle type aborted instead
 of being rejected

---
 src/Particle.cpp | 5 ++---
 src/Particle.hpp | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 9c82907..ca7538d 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -19,7 +19,7 @@
 
 //// public
 
-Particle::Type Particle::ToType(const std::string& name) noexcept {
+Particle::Type Particle::ToType(const std::string& name) {
   if (name == "neutron") {
     return Particle::Type::neutron;
   }
@@ -27,8 +27,7 @@ Particle::Type Particle::ToType(const std::string& name) noexcept {
     return Particle::Type::photon;
   }
   else {
-    assert(false); // this should have been caught by the validator
-    return {};
+    throw std::runtime_error("Unknown particle type: \"" + name + "\"");
   };
 }
 
diff --git a/src/Particle.hpp b/src/Particle.hpp
index ce297b9..69db04c 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -42,7 +42,8 @@ public:
     virtual_collision,
   };
   /// @brief Helper function to convert from std::string to Type
-  static Type ToType(const std::string& name) noexcept;
+  /// @exception std::runtime_error Name is not the name of a Type
+  static Type ToType(const std::string& name);
   /// @brief The TransportMethod used by all Particle objects
   static std::shared_ptr<const TransportMethod> transport_method;
   /// @brief Member constructor. Explicitly assigns phase-space members.
-- 
2.43.0


From e39ef64802a843a32ff49013b81eac281f836502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 24/27] fix: energy and cosine boundaries that are no finite
 numbers were accepted

---
 src/Bins.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index a40cb8e..7c33ce8 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -59,9 +59,11 @@ LinspaceBins::LinspaceBins(const pugi::xml_node& linspace_node)
       lower_bound{linspace_node.attribute("min").as_double()},
       upper_bound{[this, &linspace_node]() {
         const auto upper_bound = linspace_node.attribute("max").as_double();
-        if (upper_bound <= lower_bound) {
+        if (!(upper_bound > lower_bound) ||
+            !std::isfinite(upper_bound - lower_bound)) {
           throw std::runtime_error(
-              linspace_node.path() + ": max must be strictly greater than min");
+              linspace_node.path() +
+              ": max must be finite and strictly greater than min");
         }
         return upper_bound;
       }()},
@@ -106,9 +108,11 @@ LogspaceBins::LogspaceBins(const pugi::xml_node& logspace_node)
       log_lower_bound{logspace_node.attribute("min").as_double()},
       log_upper_bound{[this, &logspace_node]() {
         const auto log_upper_bound = logspace_node.attribute("max").as_double();
-        if (log_upper_bound <= log_lower_bound) {
+        if (!(log_upper_bound > log_lower_bound) ||
+            !std::isfinite(log_upper_bound - log_lower_bound)) {
           throw std::runtime_error(
-              logspace_node.path() + ": max must be strictly greater than min");
+              logspace_node.path() +
+              ": max must be finite and strictly greater than min");
         }
         return log_upper_bound;
       }()},
@@ -152,7 +156,11 @@ BoundaryBins::BoundaryBins(const pugi::xml_node& boundaries_node)
         std::stringstream boundary_stringlist{boundaries_node.child_value()};
         Real prev_boundary = -std::numeric_limits<Real>::infinity();
         Real boundary;
-        while (boundary_stringlist >> boundary) {
+        while (!(boundary_stringlist >> std::ws).eof()) {
+          if (!(boundary_stringlist >> boundary)) {
+            throw std::runtime_error(
+                boundaries_node.path() + ": boundaries must be finite numbers");
+          }
           if (boundary <= prev_boundary) {
             throw std::runtime_error(
                 boundaries_node.path() + ": nonincreasing elements found: " +
-- 
2.43.0


From 8c6ee705919e822be61651151b3fc2985589d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 25/27] fix: unordered partitions of thermal scattering data
 aborted instead of being rejected

---
 src/ThermalScattering.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index ba35bd5..420aa81 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -37,7 +37,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         return result;
       }()},
       // IIFE
-      Es{[this]() noexcept {
+      Es{[this, &tsl_node]() {
         std::vector<ContinuousEnergy> result;
         for (const auto& partition : beta_partitions) {
           const auto& Es = partition.E_T_modes.GetAxis(0);
@@ -46,7 +46,11 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         // incident energies must be monotonically increasing
         ContinuousEnergy prev_E = 0;
         for (const auto& E : result) {
-          assert(prev_E < E);
+          if (!(prev_E < E)) {
+            throw std::runtime_error(
+                tsl_node.path() +
+                ": energies of beta partitions must be strictly increasing");
+          }
           prev_E = E;
         }
         return result;
@@ -70,7 +74,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         return result;
       }()},
       // IIFE
-      betas{[this]() noexcept {
+      betas{[this, &tsl_node]() {
         std::vector<ThermalScattering::Beta> result;
         for (const auto& partition : alpha_partitions) {
           const auto& betas = partition.beta_T_modes.GetAxis(0);
@@ -79,7 +83,11 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
         // betas must be monotonically increasing
         ThermalScattering::Beta prev_beta = 0;
         for (const auto& beta : result) {
-          assert(prev_beta < beta);
+          if (!(prev_beta < beta)) {
+            throw std::runtime_error(
+                tsl_node.path() +
+                ": betas of alpha partitions must be strictly increasing");
+          }
           prev_beta = beta;
         }
         return result;
-- 
2.43.0


From c96c09d97ba964b65faf94478499fe4498043bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:35 +0000
Subject: [PATCH 26/27] fix: all senses of a surface listed more than once in a
 void count

---
 src/Cell.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Cell.hpp b/src/Cell.hpp
index d000947..08fd69c 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -33,8 +33,9 @@ private:
         const std::shared_ptr<const CSGSurface>& lhs,
         const std::shared_ptr<const CSGSurface>& rhs) const noexcept;
   };
+  // A CSGSurface may be listed more than once in a void so all senses count.
   using SurfaceSenses =
-      std::map<std::shared_ptr<const CSGSurface>, bool, CompareNames>;
+      std::multimap<std::shared_ptr<const CSGSurface>, bool, CompareNames>;
   // A vector of Material objects. Multiple Cell objects can share the same
   // Material object.
   using MaterialVector = std::vector<std::shared_ptr<const Material>>;
-- 
2.43.0


From 9fa0702032893d4cbd3de7a135d7ec9db6806fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:12 +0000
Subject: [PATCH 27/27] fix: excess entries of group constants that are no
 finite numbers were ignored

---
 src/Multigroup.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Multigroup.cpp b/src/Multigroup.cpp
index d36dedf..404b8d2 100644
--- a/src/Multigroup.cpp
+++ b/src/Multigroup.cpp
@@ -83,7 +83,11 @@ Multigroup::OneDimensional::OneDimensional(const pugi::xml_node& groupxs_node) {
   const Group G{GroupStructureSize(groupxs_node.root())};
   std::stringstream element_stringlist{groupxs_node.child_value()};
   Real element;
-  while (element_stringlist >> element) {
+  while (!(element_stringlist >> std::ws).eof()) {
+    if (!(element_stringlist >> element)) {
+      throw std::runtime_error(
+          groupxs_node.path() + ": Entries must be finite numbers");
+    }
     elements.push_back(element);
   }
   if (elements.size() != G) {
@@ -127,7 +131,11 @@ Multigroup::TwoDimensional::TwoDimensional(const pugi::xml_node& groupxs_node) {
   std::vector<Real> flattened;
   std::stringstream element_stringlist{groupxs_node.child_value()};
   Real element;
-  while (element_stringlist >> element) {
+  while (!(element_stringlist >> std::ws).eof()) {
+    if (!(element_stringlist >> element)) {
+      throw std::runtime_error(
+          groupxs_node.path() + ": Entries must be finite numbers");
+    }
     flattened.push_back(element);
   }
   const size_t expected_size{G * G};
-- 
2.43.0

