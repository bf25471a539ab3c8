From 58c6ee3280367a3b015478b1c8a4d333438cc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 01/36] fix: Entity_type values start at -1, so names were off
 by one

---
 src/mesh/MeshDefs.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/MeshDefs.hh b/src/mesh/MeshDefs.hh
index 0219930..a318305 100644
--- a/src/mesh/MeshDefs.hh
+++ b/src/mesh/MeshDefs.hh
@@ -174,7 +174,7 @@ const int NUM_ENTITY_TYPES = 6;
 inline
 bool valid_entity_type(const Entity_type type) {
   int itype = static_cast<int>(type);
-  return (itype >= 0 && itype < NUM_ENTITY_TYPES);
+  return (itype >= -1 && itype < NUM_ENTITY_TYPES-1);
 }
 
 // Return a string describing the entity kind that can be printed out
@@ -186,7 +186,7 @@ std::string Entity_type_string(Entity_type const type) {
        "Entity_type::BOUNDARY_GHOST", "Entity_type::ALL"};
 
   int itype = static_cast<int>(type);
-  return valid_entity_type(type) ? type_str[itype] : "";
+  return valid_entity_type(type) ? type_str[itype+1] : "";
 }
 
 
-- 
2.43.0


From f9acb7de9c194cfee70ced0d12e10e47de39247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 02/36] fix: reset_options left the sides request switched on

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index e11fb87..11bd2da 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -151,6 +151,7 @@ void MeshFactory::reset_options(void) {
   request_edges_ = request_edges_default_;
   request_faces_ = request_faces_default_;
   request_cells_ = request_cells_default_;
+  request_sides_ = request_sides_default_;
   request_wedges_ = request_wedges_default_;
   request_corners_ = request_corners_default_;
 
-- 
2.43.0


From 96515a0c3de1b859ce3709b171f2c1b9ab02e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 03/36] fix: 1D simple mesh ignored the geometric model it was
 given

---
 src/mesh/mesh_simple/Mesh_simple.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 34002e7..49fa082 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -149,6 +149,9 @@ Mesh_simple::Mesh_simple(const std::vector<double>& x,
   set_space_dimension(1);
   set_manifold_dimension(1);
 
+  if (gm != (JaliGeometry::GeometricModelPtr) NULL)
+    Mesh::set_geometric_model(gm);
+
   assert(!boundary_ghosts_requested);  // Cannot yet make boundary ghosts
 
   clear_internals_1d_();
-- 
2.43.0


From 455d97d43772bd5240169e8ba5c992da89a5e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 04/36] fix: uniform 1D mesh with nx cells needs nx+1 nodes

---
 src/mesh/mesh_factory/MeshFactory.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.hh b/src/mesh/mesh_factory/MeshFactory.hh
index 03df426..bcb94ba 100644
--- a/src/mesh/mesh_factory/MeshFactory.hh
+++ b/src/mesh/mesh_factory/MeshFactory.hh
@@ -338,7 +338,7 @@ class MeshFactory {
     double dX = (x1-x0)/((double)nx);
     double myX = x0;
 
-    std::vector<double> x(nx);
+    std::vector<double> x(nx+1);
     for (auto it = x.begin(); it != x.end(); it++) {
       *it = myX;
       myX += dX;
-- 
2.43.0


From 8b760bd4b02a685e6db978188a92b42cbc16aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 05/36] fix: exception behavior was a separate variable in
 every source file

---
 src/error_handling/exceptions.cc |  2 ++
 src/error_handling/exceptions.hh | 10 ++--------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/error_handling/exceptions.cc b/src/error_handling/exceptions.cc
index 45c6fba..572374f 100644
--- a/src/error_handling/exceptions.cc
+++ b/src/error_handling/exceptions.cc
@@ -52,6 +52,8 @@
 
 namespace Exceptions {
 
+Exception_action behavior = Exceptions::RAISE;
+
 void set_exception_behavior_raise() { behavior = Exceptions::RAISE; }
 void set_exception_behavior_abort() { behavior = Exceptions::ABORT; }
 void set_exception_behavior(Exception_action action) { behavior = action; }
diff --git a/src/error_handling/exceptions.hh b/src/error_handling/exceptions.hh
index ceaae86..47b8630 100644
--- a/src/error_handling/exceptions.hh
+++ b/src/error_handling/exceptions.hh
@@ -71,15 +71,9 @@ void set_exception_behavior(Exception_action);
 Exception_action exception_behavior();
 
 template <typename E> void Jali_throw(const E& exception);
-}  // namespace Exceptions
 
-
-namespace {
-Exceptions::Exception_action behavior = Exceptions::RAISE;
-}
-
-
-namespace Exceptions {
+// Current exception behavior - one for the whole program
+extern Exception_action behavior;
 
 // Either raise the given exception or abort, depending on the value of behavior.
 template <typename E>
-- 
2.43.0


From 79a17bfec1efc645e27f97fa648949df85a4909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 06/36] fix: 2D mesh creation returned a null mesh for
 frameworks that cannot generate it

---
 src/mesh/mesh_factory/MeshFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 11bd2da..472f062 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -429,6 +429,7 @@ MeshFactory::create(double const x0, double const y0,
       }
 #endif
       default: {
+        ierr = 1;
         errmsg.add_data("Chosen framework cannnot generate meshes");        
       }
     }
-- 
2.43.0


From fd9ee628a6b3aaf2d2efde68a31f1e8768d1ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 07/36] fix: frameworks that are not compiled in were reported
 as available

---
 src/mesh/mesh_factory/MeshFactory.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mesh/mesh_factory/MeshFactory.cc b/src/mesh/mesh_factory/MeshFactory.cc
index 472f062..ec2aed2 100644
--- a/src/mesh/mesh_factory/MeshFactory.cc
+++ b/src/mesh/mesh_factory/MeshFactory.cc
@@ -90,10 +90,11 @@ std::string framework_name(MeshFramework_t const& f) {
 
 /// Check if a framework is available for use
 bool framework_available(MeshFramework_t const& f) {
-  if (f == Simple || f == MSTK)
+#ifdef HAVE_MSTK_MESH
+  if (f == MSTK)
     return true;
-  else
-    return false;
+#endif
+  return (f == Simple);
 }
 
 /// Check if a framework can generate a mesh
-- 
2.43.0


From 832f5416cd57afd8ca42329ff45df30ec2757df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 08/36] fix: get_data and get_raw_data of state vectors could
 not be instantiated

---
 src/statemanager/JaliStateVector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 87936c8..93efa6e 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -392,7 +392,7 @@ class UniStateVector : public UniStateVectorBase<DomainType> {
 
   /// Get a shared pointer to the data
 
-  std::shared_ptr<T> get_data() { return mydata_; }
+  std::shared_ptr<std::vector<T>> get_data() { return mydata_; }
 
   /// Type of data
 
@@ -818,9 +818,9 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
   
   ~MultiStateVector() {}
 
-  /// Get the raw data (NOT USEFUL)
+  /// Get the raw data (array of per-material data vectors)
 
-  T *get_raw_data() { return &((*mydata_)[0]); }
+  std::vector<T> *get_raw_data() { return &((*mydata_)[0]); }
 
   /// Get the raw data for a material
 
-- 
2.43.0


From c4873444de81fb2703e94164adba925015c75a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 09/36] fix: mesh() of state vectors on tiles and sets did not
 compile

---
 src/mesh/MeshTile.hh               | 2 +-
 src/statemanager/JaliStateVector.h | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesh/MeshTile.hh b/src/mesh/MeshTile.hh
index 4d7cf57..1559ede 100644
--- a/src/mesh/MeshTile.hh
+++ b/src/mesh/MeshTile.hh
@@ -136,7 +136,7 @@ class MeshTile {
 
   /// @brief The mesh that this tile belongs to
 
-  Mesh const & mesh() {
+  Mesh & mesh() {
     return mesh_;
   }
 
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index 93efa6e..bb32048 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -253,9 +253,12 @@ class UniStateVectorBase : public StateVectorBase {
  protected:
   std::shared_ptr<DomainType> mydomain_;
 
-  const Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
+  Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
      return meshtile->mesh();
   }
+  Mesh & get_mesh_of_domain(std::shared_ptr<MeshSet> meshset) const {
+     return meshset->mesh();
+  }
   Mesh & get_mesh_of_domain(std::shared_ptr<Mesh> mesh) const {
     return *mesh;
   }
@@ -594,7 +597,7 @@ class MultiStateVectorBase : public StateVectorBase {
  protected:
   std::shared_ptr<DomainType> mydomain_;
 
-  const Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
+  Mesh & get_mesh_of_domain(std::shared_ptr<MeshTile> meshtile) const {
      return meshtile->mesh();
   }
   Mesh & get_mesh_of_domain(std::shared_ptr<Mesh> mesh) const {
-- 
2.43.0


From 19a9c6f344a219fb9973430f5d67eef779ecda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 10/36] fix: const State::get assigned through a pointer to
 const and did not compile

---
 src/statemanager/JaliState.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index d3ee913..4c82768 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -844,7 +844,7 @@ class State : public std::enable_shared_from_this<State> {
            std::shared_ptr<DomainType> domain,
            Entity_kind kind,
            Entity_type type,
-           StateVecType<T, DomainType> const *vector) const {
+           StateVecType<T, DomainType> *vector) const {
 
     const_iterator it = find<T, DomainType, StateVecType>(name, domain, kind, type);
     if (it != state_vectors_.cend()) {
@@ -910,7 +910,7 @@ class State : public std::enable_shared_from_this<State> {
   template <class T, class DomainType,
             template <class /* T */, class /* DomainType */> class StateVecType>
   bool get(std::string name,
-           StateVecType<T, DomainType> const *vector) const {
+           StateVecType<T, DomainType> *vector) const {
     return get(name, mymesh_, Entity_kind::ANY_KIND, Entity_type::ALL,
                vector);
   }
-- 
2.43.0


From ad9e3a1569bed179da1828de3531a359e9f50449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 11/36] fix: copies of labeled set and logical regions lost
 their own fields

---
 src/geometry/LabeledSetRegion.cc | 3 ++-
 src/geometry/LogicalRegion.cc    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geometry/LabeledSetRegion.cc b/src/geometry/LabeledSetRegion.cc
index 15cfdf8..46bb9f8 100644
--- a/src/geometry/LabeledSetRegion.cc
+++ b/src/geometry/LabeledSetRegion.cc
@@ -84,7 +84,8 @@ LabeledSetRegion::LabeledSetRegion(const std::string name,
 }
 
 LabeledSetRegion::LabeledSetRegion(const LabeledSetRegion& old)
-  : Region(old)
+  : Region(old), entity_str_(old.entity_str_), file_(old.file_),
+    format_(old.format_), label_(old.label_)
 {
   // empty
 }
diff --git a/src/geometry/LogicalRegion.cc b/src/geometry/LogicalRegion.cc
index 86e98f1..748ae82 100644
--- a/src/geometry/LogicalRegion.cc
+++ b/src/geometry/LogicalRegion.cc
@@ -105,7 +105,8 @@ LogicalRegion::LogicalRegion(const std::string name,
 }
 
 LogicalRegion::LogicalRegion(const LogicalRegion& old)
-  : Region(old)
+  : Region(old), operation_(old.operation_),
+    region_names_(old.region_names_)
 {
   // empty
 }
-- 
2.43.0


From e88b766d7a9fce17494e718c24f00ecb3bb3b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 12/36] fix: state vectors added without data or with array
 data got the index of the vector before

---
 src/statemanager/JaliState.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/statemanager/JaliState.h b/src/statemanager/JaliState.h
index 4c82768..cc08b55 100644
--- a/src/statemanager/JaliState.h
+++ b/src/statemanager/JaliState.h
@@ -1117,7 +1117,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1171,7 +1171,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
@@ -1224,7 +1224,7 @@ class State : public std::enable_shared_from_this<State> {
       // vectors on this entity type with a permutation iterator
 
       int ikind = static_cast<int>(kind);
-      entity_indexes_[ikind].emplace_back(state_vectors_.size()-1);
+      entity_indexes_[ikind].emplace_back(state_vectors_.size());
       names_.emplace_back(name);
 
       auto vector =
-- 
2.43.0


From 2488faa81937afe51a6b53dd9a540c63a2e1af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 13/36] fix: adding to and removing from mesh sets left stale
 entity lists and indices

---
 src/mesh/MeshSet.cc | 77 ++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 43 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 6363aba..3387b43 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -112,7 +112,11 @@ void MeshSet::add_entity(Entity_ID const& mesh_entity) {
     entityids_owned_.push_back(mesh_entity);
     entityids_all_.insert(entityids_all_.begin()+nowned_old, mesh_entity);
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = nowned_old;
+    if (have_reverse_map_) {  // the ghost entities moved up by one
+      int nall = entityids_all_.size();
+      for (int i = nowned_old; i < nall; i++)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
 
   } else if (etype == Entity_type::PARALLEL_GHOST) {
 
@@ -152,15 +156,17 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
     else
       return;  // No other type like BOUNDARY_GHOST can be part of set
 
-    size = entityids_all_.size();
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-1];  // replace mesh_entity with last entry
-      entityids_all_.resize(size-1);
-    }
+    // keep owned entities first and ghost entities last
+    entityids_all_ = entityids_owned_;
+    entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                          entityids_ghost_.end());
 
-    if (have_reverse_map_) mesh2subset_[mesh_entity] = -1;
+    if (have_reverse_map_) {
+      mesh2subset_[mesh_entity] = -1;
+      int nall = entityids_all_.size();
+      for (int i = 0; i < nall; i++)
+        mesh2subset_[entityids_all_[i]] = i;
+    }
   }
 
 
@@ -168,7 +174,6 @@ void MeshSet::rem_entity(Entity_ID const& mesh_entity) {
 
 void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   int nowned_old = entityids_owned_.size();
-  int nghost_old = entityids_ghost_.size();
   int nall = in_entities.size();
   int nowned = 0;
   int nghost = 0;
@@ -183,7 +188,7 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
     entityids_owned_.insert(entityids_owned_.end(), in_entities.begin(),
                             in_entities.end());
   else if (nall == nghost)
-    entityids_owned_.insert(entityids_ghost_.end(), in_entities.begin(),
+    entityids_ghost_.insert(entityids_ghost_.end(), in_entities.begin(),
                             in_entities.end());
   else
     for (auto const& mesh_entity : in_entities)
@@ -192,27 +197,18 @@ void MeshSet::add_entities(std::vector<Entity_ID> const& in_entities) {
   // entityids_all should always have owned entities first and ghost
   // entities last - so we can't just put in entities at the end -
   // we have to make a new list with the updated owned and ghost
-  // entities and concatenate them (if there are any ghosts)
+  // entities and concatenate them
   
-  if (entityids_ghost_.size()) {
-    std::vector<Entity_ID> tmp_list(entityids_owned_);
-    tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
-                    entityids_ghost_.end());
-    entityids_all_.swap(tmp_list);
-  } else
-    entityids_all_.insert(entityids_all_.begin(), in_entities.begin(),
-                          in_entities.end());
+  std::vector<Entity_ID> tmp_list(entityids_owned_);
+  tmp_list.insert(tmp_list.end(), entityids_ghost_.begin(),
+                  entityids_ghost_.end());
+  entityids_all_.swap(tmp_list);
 
   if (have_reverse_map_) {  // have to update mesh to subset map
     // new owned entities should have gone in after old owned entities
-    int start = nowned_old;
-    for (int i = start; i < start + nowned; i++)
-      mesh2subset_[entityids_all_[i]] = i;
-    
-    // new ghost entities should have gone in after old+new owned
-    // entities and old ghost entities
-    start = nowned_old + nowned + nghost_old;
-    for (int i = start; i < start + nghost; i++)
+    // and moved all the ghost entities up
+    int size = entityids_all_.size();
+    for (int i = nowned_old; i < size; i++)
       mesh2subset_[entityids_all_[i]] = i;
   }
 }
@@ -230,8 +226,8 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
     Entity_type etype = mesh_.entity_get_type(kind_, mesh_entity);
     if (etype == Entity_type::PARALLEL_OWNED) {
       auto const& it = std::find(entityids_owned_.begin(),
-                                 entityids_owned_.end(), mesh_entity);
-      if (it != entityids_owned_.end()) {
+                                 entityids_owned_.end()-ndel, mesh_entity);
+      if (it != entityids_owned_.end()-ndel) {
         *it = entityids_owned_[size-ndel-1];
         ndel++;
       }
@@ -243,27 +239,22 @@ void MeshSet::rem_entities(std::vector<Entity_ID> const& in_entities) {
   ndel = 0;
   for (auto const& mesh_entity : in_entities) {
     auto const& it = std::find(entityids_ghost_.begin(),
-                               entityids_ghost_.end(), mesh_entity);
-    if (it != entityids_ghost_.end()) {
+                               entityids_ghost_.end()-ndel, mesh_entity);
+    if (it != entityids_ghost_.end()-ndel) {
       *it = entityids_ghost_[size-ndel-1];
       ndel++;
     }
   }
   entityids_ghost_.resize(size-ndel);
   
-  size = entityids_all_.size();
-  ndel = 0;
-  for (auto const& mesh_entity : in_entities) {
-    auto const& it = std::find(entityids_all_.begin(),
-                               entityids_all_.end(), mesh_entity);
-    if (it != entityids_all_.end()) {
-      *it = entityids_all_[size-ndel-1];
-      ndel++;
-    }
-  }
-  entityids_all_.resize(size-ndel);
+  // keep owned entities first and ghost entities last
+  entityids_all_ = entityids_owned_;
+  entityids_all_.insert(entityids_all_.end(), entityids_ghost_.begin(),
+                        entityids_ghost_.end());
 
   if (have_reverse_map_) {
+    for (auto const& mesh_entity : in_entities)
+      mesh2subset_[mesh_entity] = -1;
     int nall = entityids_all_.size();
     for (int i = 0; i < nall; i++)
       mesh2subset_[entityids_all_[i]] = i;
-- 
2.43.0


From 939a3b004dc9e06deb1c058acf13c5f5a4b9a2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:30 +0000
Subject: [PATCH 14/36] fix: index_in_set said that sets without a reverse map
 have no entities

---
 src/mesh/MeshSet.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/MeshSet.hh b/src/mesh/MeshSet.hh
index f64991f..ee170a2 100644
--- a/src/mesh/MeshSet.hh
+++ b/src/mesh/MeshSet.hh
@@ -223,7 +223,10 @@ class MeshSet {
   /// @brief check if mesh entity index is in meshset
 
   Entity_ID index_in_set(Entity_ID const& mesh_entity) const {
-    return (mesh2subset_.size() ? mesh2subset_[mesh_entity] : -1);
+    if (mesh2subset_.size()) return mesh2subset_[mesh_entity];
+    auto it = std::find(entityids_all_.begin(), entityids_all_.end(),
+                        mesh_entity);
+    return it != entityids_all_.end() ? it - entityids_all_.begin() : -1;
   }
   
   /// @brief add entity to meshset (no check for duplicates)
-- 
2.43.0


From ba9cb3bf4e335fbc1381c438fe32ffc40aa148de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 15/36] fix: complement of mesh sets took ghost entities for
 the first entities of the mesh

---
 src/mesh/MeshSet.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index 3387b43..a0f4ada 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -491,6 +491,7 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
                                             Entity_type::PARALLEL_OWNED);
   int nent_ghost = set0->mesh_.num_entities(set0->kind_,
                                             Entity_type::PARALLEL_GHOST);
+  int nent_all = set0->mesh_.num_entities(set0->kind_, Entity_type::ALL);
 
   // Create a temporary union of the input sets
 
@@ -498,16 +499,20 @@ complement(std::vector<std::shared_ptr<MeshSet>> inpsets, bool temporary) {
 
   Entity_ID_List owned_list;
   owned_list.reserve(nent_owned - setunion->entityids_owned_.size());
-  for (int ent = 0; ent < nent_owned; ent++)
-    if (std::find(setunion->entityids_owned_.begin(),
+  for (int ent = 0; ent < nent_all; ent++)
+    if (set0->mesh_.entity_get_type(set0->kind_, ent) ==
+        Entity_type::PARALLEL_OWNED &&
+        std::find(setunion->entityids_owned_.begin(),
                   setunion->entityids_owned_.end(),
                   ent) == setunion->entityids_owned_.end())
       owned_list.push_back(ent);
   
   Entity_ID_List ghost_list;
   ghost_list.reserve(nent_ghost - setunion->entityids_ghost_.size());
-  for (int ent = 0; ent < nent_ghost; ent++)
-    if (std::find(setunion->entityids_ghost_.begin(),
+  for (int ent = 0; ent < nent_all; ent++)
+    if (set0->mesh_.entity_get_type(set0->kind_, ent) ==
+        Entity_type::PARALLEL_GHOST &&
+        std::find(setunion->entityids_ghost_.begin(),
                   setunion->entityids_ghost_.end(),
                   ent) == setunion->entityids_ghost_.end())
       ghost_list.push_back(ent);
-- 
2.43.0


From 2c0ece5277c106c4bbb008aed6271e29c70a8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 16/36] fix: union of a single mesh set was the set itself,
 which logical regions then renamed

---
 src/mesh/MeshSet.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/mesh/MeshSet.cc b/src/mesh/MeshSet.cc
index a0f4ada..90a1227 100644
--- a/src/mesh/MeshSet.cc
+++ b/src/mesh/MeshSet.cc
@@ -296,9 +296,6 @@ merge(std::vector<std::shared_ptr<MeshSet>> const& inpsets, bool temporary) {
   assert(inpsets.size());
   std::shared_ptr<MeshSet> set0 = inpsets[0];
 
-  if (inpsets.size() == 1)
-    return set0;
-
   for (auto const& set : inpsets) {
     if (set == set0) continue;
     assert(&(set0->mesh_) == &(set->mesh_));
-- 
2.43.0


From c3131ffd8fcfb428b6fe438986b6052055970691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 17/36] fix: subtracting a region from itself subtracted
 nothing from it

---
 src/mesh/Mesh.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3d73d11..c667122 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3005,9 +3005,8 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
     else if (boolregion->operation() == JaliGeometry::Bool_type::INTERSECT)
       mset = intersect(msets, temporary);
     else if (boolregion->operation() == JaliGeometry::Bool_type::SUBTRACT) {
-      std::vector<std::shared_ptr<MeshSet>> msets1;
-      for (auto const& set : msets)
-        if (set != msets[0]) msets1.push_back(set);
+      std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
+                                                   msets.end());
       mset = subtract(msets[0], msets1, temporary);      
     }
 
-- 
2.43.0


From 3965ea9b9030126fe74e8b631f86263c56c8a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 18/36] fix: materials of cells and vectors went out of step
 with the material sets when materials or cells were added or removed

---
 src/statemanager/JaliState.cc      | 56 +++++++++++++++++++++++-------
 src/statemanager/JaliStateVector.h |  8 +++++
 2 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2b3ef75..2466ba7 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -46,6 +46,7 @@
 
 */
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 
@@ -75,7 +76,11 @@ void State::add_material(std::string const& matname,
                           owned_entities, ghost_entities, with_reverse_map);
   }
 
-  matset->add_entities(matcells);
+  // An existing set can have these cells and others already
+  std::vector<int> newcells;
+  for (auto const& c : matcells)
+    if (matset->index_in_set(c) == -1) newcells.push_back(c);
+  matset->add_entities(newcells);
 
   material_cellsets_.push_back(matset);
 
@@ -83,14 +88,17 @@ void State::add_material(std::string const& matname,
   if (cell_materials_.size() == 0)
     cell_materials_.resize(mymesh_->num_entities(Jali::Entity_kind::CELL,
                                                  Jali::Entity_type::ALL));
-  for (auto const& c : matcells)
+  int nmatcells = matset->entities().size();
+  for (auto const& c : matset->entities())
     cell_materials_[c].push_back(matid);
 
   // GO TO EACH MMStateVector AND ADD ENTRIES FOR THIS MATERIAL
   for (auto &sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      if (mv) mv->add_material(matcells.size());
+      if (mv) mv->add_material(nmatcells);
+      auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (tv) tv->add_material(nmatcells);
     }
   }
 }
@@ -103,11 +111,11 @@ void State::rem_material(int m) {
   std::shared_ptr<MeshSet> matset = material_cellsets_[m];
   if (!matset) return;
 
-  for (auto const& c : material_cellsets_[m]->entities()) {
-    int nmats = cell_materials_[c].size();
-    for (int i = 0; i < nmats; i++)
-      if (m == cell_materials_[c][i])
-        cell_materials_[c].erase(cell_materials_[c].begin()+i);
+  // Materials after this one move down by one
+  for (auto& mats : cell_materials_) {
+    mats.erase(std::remove(mats.begin(), mats.end(), m), mats.end());
+    for (auto& m2 : mats)
+      if (m2 > m) m2--;
   }
 
   material_cellsets_.erase(material_cellsets_.begin()+m);
@@ -117,6 +125,8 @@ void State::rem_material(int m) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
       if (mv) mv->rem_material(m);
+      auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (tv) tv->rem_material(m);
     }
   }
 }
@@ -125,16 +135,36 @@ void State::rem_material(int m) {
 
 void State::add_cells_to_material(int m, std::vector<int> const& cells) {
   assert(m < material_cellsets_.size());
-  material_cellsets_[m]->add_entities(cells);
-
+  std::shared_ptr<MeshSet> matset = material_cellsets_[m];
+  int nold = matset->num_entities(Entity_type::ALL);
+  int nowned = matset->num_entities(Entity_type::PARALLEL_OWNED);
+  std::vector<int> newcells;
   for (auto const& c : cells)
-    cell_materials_[c].push_back(m);
+    if (matset->index_in_set(c) == -1) newcells.push_back(c);
+  matset->add_entities(newcells);
+
+  // New owned cells come after the owned
+  // cells already there and new ghost cells at the end
+  std::vector<int> const& matcells = matset->entities();
+  int ncells = matcells.size();
+  int nnewowned = matset->num_entities(Entity_type::PARALLEL_OWNED) - nowned;
+  for (int i = nowned; i < nowned + nnewowned; i++)
+    cell_materials_[matcells[i]].push_back(m);
+  for (int i = nold + nnewowned; i < ncells; i++)
+    cell_materials_[matcells[i]].push_back(m);
 
   for (auto & sv : state_vectors_) {
     if (sv->type() == StateVector_type::MULTIVAL) {
       auto mv = std::dynamic_pointer_cast<MultiStateVectorBase<Mesh>>(sv);
-      int size = mv->size(m);
-      mv->resize(m, size+cells.size());
+      if (mv) {
+        mv->insert(m, nowned, nnewowned);
+        mv->resize(m, ncells);
+      }
+      auto tv = std::dynamic_pointer_cast<MultiStateVectorBase<MeshTile>>(sv);
+      if (tv) {
+        tv->insert(m, nowned, nnewowned);
+        tv->resize(m, ncells);
+      }
     }
   }
 }
diff --git a/src/statemanager/JaliStateVector.h b/src/statemanager/JaliStateVector.h
index bb32048..1113d51 100644
--- a/src/statemanager/JaliStateVector.h
+++ b/src/statemanager/JaliStateVector.h
@@ -563,6 +563,9 @@ class MultiStateVectorBase : public StateVectorBase {
   /// Resize a particular material array
   virtual void resize(int m, size_t newsize) = 0;
 
+  /// Insert n new entries at position pos of a particular material array
+  virtual void insert(int m, size_t pos, size_t n) = 0;
+
   /// Clear out all the data
   virtual void clear() = 0;
 
@@ -940,6 +943,11 @@ class MultiStateVector : public MultiStateVectorBase<DomainType> {
   /// Resize a particular material array
   void resize(int m, size_t newsize) { (*mydata_)[m].resize(newsize); }
 
+  /// Insert n new entries at position pos of a particular material array
+  void insert(int m, size_t pos, size_t n) {
+    (*mydata_)[m].insert((*mydata_)[m].begin()+pos, n, T());
+  }
+
   /// Resize a particular material array and initialize new elements to val
   void resize(int m, size_t newsize, T val) {
     (*mydata_)[m].resize(newsize, val);
-- 
2.43.0


From 6e8aeb832376e29322bea2a9c55ff967e289c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 19/36] fix: importing mesh fields leaked them and exporting a
 vector on a tile or set dereferenced null

---
 src/statemanager/JaliState.cc | 54 +++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/statemanager/JaliState.cc b/src/statemanager/JaliState.cc
index 2466ba7..7b32885 100644
--- a/src/statemanager/JaliState.cc
+++ b/src/statemanager/JaliState.cc
@@ -208,38 +208,38 @@ void State::init_from_mesh() {
 
     for (int i = 0; i < num; i++) {
       if (vartypes[i] == "INT") {
-        int *data = new int[nent];
-        mymesh_->get_field(varnames[i], kind, data);
+        std::vector<int> data(nent);
+        mymesh_->get_field(varnames[i], kind, data.data());
         // UniStateVector<int, Mesh> & sv =
-        add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+        add(varnames[i], mymesh_, kind, Entity_type::ALL, data.data());
       } else if (vartypes[i] == "DOUBLE") {
-        double *data = new double[nent];
-        mymesh_->get_field(varnames[i], kind, data);
+        std::vector<double> data(nent);
+        mymesh_->get_field(varnames[i], kind, data.data());
         // UniStateVector<double, Mesh> & sv =
-        add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+        add(varnames[i], mymesh_, kind, Entity_type::ALL, data.data());
       } else if (vartypes[i] == "VECTOR") {
         if (spacedim == 2) {
-          std::array<double, 2> *data = new std::array<double, 2>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
+          std::vector<std::array<double, 2>> data(nent);
+          mymesh_->get_field(varnames[i], kind, data.data());
           // UniStateVector<std::array<double, 2>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          add(varnames[i], mymesh_, kind, Entity_type::ALL, data.data());
         } else if (spacedim == 3) {
-          std::array<double, 3> *data = new std::array<double, 3>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
+          std::vector<std::array<double, 3>> data(nent);
+          mymesh_->get_field(varnames[i], kind, data.data());
           // UniStateVector<std::array<double, 3>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          add(varnames[i], mymesh_, kind, Entity_type::ALL, data.data());
         }
       } else if (vartypes[i] == "TENSOR") {  // assumes symmetric tensors
         if (spacedim == 2) {  // lower half & diagonal of 2x2 tensor
-          std::array<double, 3> *data = new std::array<double, 3>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
+          std::vector<std::array<double, 3>> data(nent);
+          mymesh_->get_field(varnames[i], kind, data.data());
           // UniStateVector<std::array<double, 3>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          add(varnames[i], mymesh_, kind, Entity_type::ALL, data.data());
         } else if (spacedim == 3) {  // lower half & diagonal of 3x3 tensor
-          std::array<double, 6> *data = new std::array<double, 6>[nent];
-          mymesh_->get_field(varnames[i], kind, data);
+          std::vector<std::array<double, 6>> data(nent);
+          mymesh_->get_field(varnames[i], kind, data.data());
           // UniStateVector<std::array<double, 6>, Mesh> & sv =
-          add(varnames[i], mymesh_, kind, Entity_type::ALL, data);
+          add(varnames[i], mymesh_, kind, Entity_type::ALL, data.data());
         }
       }  // TENSOR
     }  // for each field on entity kind
@@ -263,26 +263,32 @@ void State::export_to_mesh() {
     Entity_kind entity_kind = vec->entity_kind();
     bool status = false;
 
-    // We only know how to store univalued data with the mesh
+    // We only know how to store univalued data on the mesh (not on its
+    // tiles or sets) with the mesh
     if (vec->type() == StateVector_type::UNIVAL) {
       if (vec->data_type() == typeid(double)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<double>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(int)) {
         auto svec = std::dynamic_pointer_cast<UniStateVector<int>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 2>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 2>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 3>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 3>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       } else if (vec->data_type() == typeid(std::array<double, 6>)) {
         auto svec =
             std::dynamic_pointer_cast<UniStateVector<std::array<double, 6>>>(vec);
-        status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
+        if (svec)
+          status = mymesh_->store_field(name, entity_kind, svec->get_raw_data());
       }
     }
 
-- 
2.43.0


From 50bcb1abbe62f7bb5180bb6557c4173581aaf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 20/36] fix: initialise the sets of a region kind by kind

init_sets_from_geometric_model skipped a region altogether once it had a cell set, so
node and face sets were never made if the cell set was built before, and made the sets of
regions without a cell set again when it was called twice.
---
 src/mesh/Mesh.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c667122..6e066b3 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2403,10 +2403,6 @@ void Mesh::init_sets_from_geometric_model(
       // We have to account for users querying any type of entity on
       // the region
 
-      auto mset = find_meshset(rgn->name(), Entity_kind::CELL);
-      if (mset) continue;
-
-      
       std::vector<Entity_kind> entity_kinds;
       auto it = region_to_entity_kinds_map.find(rgn->name());
       if (it != region_to_entity_kinds_map.end())
@@ -2448,7 +2444,8 @@ void Mesh::init_sets_from_geometric_model(
       }
 
       for (Entity_kind entity_kind : entity_kinds)
-        mset = build_set_from_region(rgn->name(), entity_kind, false);
+        if (!find_meshset(rgn->name(), entity_kind))
+          build_set_from_region(rgn->name(), entity_kind, false);
     }
   }
 }  // init_sets_from_geometric_model (must be called before querying sets from regions)
-- 
2.43.0


From eb77db262cea72ce85ec8f7b2c41943683e9b594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 21/36] fix: valid_region_name knows labels written
 Entity_kind::CELL

LabeledSetRegion accepts CELL and Entity_kind::CELL alike and so does build_set_from_region;
valid_region_name refused the second, so find_meshset_from_region found nothing.
---
 src/mesh/Mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 6e066b3..c67ee4f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2517,6 +2517,8 @@ bool Mesh::valid_region_name(std::string name, Entity_kind kind) const {
         JaliGeometry::LabeledSetRegionPtr lsrgn =
             dynamic_cast<JaliGeometry::LabeledSetRegionPtr> (rgn);
         std::string entity_type = lsrgn->entity_str();
+        std::size_t pos = entity_type.rfind("::");
+        if (pos != std::string::npos) entity_type = entity_type.substr(pos+2);
 
         if ((kind == Entity_kind::CELL && entity_type == "CELL") ||
             (kind == Entity_kind::FACE && entity_type == "FACE") ||
-- 
2.43.0


From b6053a13afdced05ab33ec9c92226e92dd9039f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 22/36] fix: a logical region without an operation is an error

build_set_from_region called set_name through a null pointer for Bool_type::NOBOOLEAN.
---
 src/mesh/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c67ee4f..c8f94f8 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3007,6 +3007,9 @@ std::shared_ptr<MeshSet> Mesh::build_set_from_region(const std::string setname,
       std::vector<std::shared_ptr<MeshSet>> msets1(msets.begin()+1,
                                                    msets.end());
       mset = subtract(msets[0], msets1, temporary);      
+    } else {
+      Errors::Message mesg("Logical region has no boolean operation");
+      Exceptions::Jali_throw(mesg);
     }
 
     // While building logical meshsets, the resulting meshset name reflects
-- 
2.43.0


From 255df4b79327a1f1dbe6fd845b6daab5899f2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 23/36] fix: making a domain from lists of models and regions
 always failed

---
 src/geometry/Domain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Domain.cc b/src/geometry/Domain.cc
index a1d5a74..e3ded32 100644
--- a/src/geometry/Domain.cc
+++ b/src/geometry/Domain.cc
@@ -120,7 +120,7 @@ Domain::Domain(const unsigned int dim,
   spatial_dimension_(dim), GeometricModels(in_geometric_models),
   FreeRegions(in_Regions)
 {
-  if (dim != 2 || dim != 3) {
+  if (dim != 2 && dim != 3) {
     std::cerr << "Only 2D and 3D domains are supported" << std::endl;
     throw std::exception();
   }
-- 
2.43.0


From 5057e0846f5d3be9427a5517047e972856e17830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 24/36] fix: point_in_polyhed took the corners of later faces
 from the wrong place after a triangle

---
 src/geometry/Geometry.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/Geometry.cc b/src/geometry/Geometry.cc
index d6092c2..4ade442 100644
--- a/src/geometry/Geometry.cc
+++ b/src/geometry/Geometry.cc
@@ -255,10 +255,10 @@
               return false;
 
           }  // for each edge of face
-
-          offset += nfnodes[i];
         }
 
+        offset += nfnodes[i];
+
       }  // for each face
 
       return true;
-- 
2.43.0


From 6e363bbbf9db8ce9917fc4d54a2681de114a0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 25/36] fix: normal of the facet between the two wedges of a 2D
 side

The facet runs from the edge center to the cell center, not from the
first node of the side to the cell center.
---
 src/mesh/Mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index c8f94f8..b884d65 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1499,7 +1499,7 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
 
     JaliGeometry::Point vec3 = scoords[2] - ecen;
 
-    *mid_facet_normal = JaliGeometry::Point(vec1[1], -vec1[0]);
+    *mid_facet_normal = JaliGeometry::Point(vec3[1], -vec3[0]);
 
   } else if (manifold_dim_ == 1) {
     std::vector<JaliGeometry::Point> scoords;
-- 
2.43.0


From 3d6b80a55845c0b5491776b0a1ba024b98cdf987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 26/36] fix: volume and outward normal of the second side of a
 1D cell

The volume (a norm) is positive and the normal points away from the cell
center for both sides already; reversing them for the second side made
its volume negative and its normal point into the cell.
---
 src/mesh/Mesh.cc | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index b884d65..5820807 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1526,19 +1526,6 @@ void Mesh::compute_side_geometry(Entity_ID const sideid,
       *outward_facet_normal = -vec0/JaliGeometry::norm(vec0);
     }
     
-    // Flip sign depending on which node/edge of the cell the side is
-    // associated with
-
-    Entity_ID nodeid = side_node_ids[sideid][0];
-    Entity_ID cellid = side_cell_id[sideid];
-
-    Entity_ID_List cnodes;
-    cell_get_nodes(cellid, &cnodes);
-    if (nodeid == cnodes[1]) {  // have to reverse sign of volume and normal
-      *side_volume = -(*side_volume);
-      *outward_facet_normal = -(*outward_facet_normal);
-    }
-
     // This is not really defined - nobody should try to use this
     mid_facet_normal->set(0.0);
   }
-- 
2.43.0


From 55ba83b4dcabf40a4ea5b32708e10da83df0bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 27/36] fix: normals of sides after the geometry is updated

The new normals were appended behind the old ones, which stayed in use.
---
 src/mesh/Mesh.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 5820807..8fd0d1c 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1110,6 +1110,8 @@ int Mesh::compute_side_geometric_quantities() const {
   // It is also unclear that this is good to do because it will cause
   // a copy operator to be triggered for each element (?)
 
+  side_outward_facet_normal.clear();
+  side_mid_facet_normal.clear();
   side_outward_facet_normal.reserve(num_sides());
   side_mid_facet_normal.reserve(num_sides());
 
-- 
2.43.0


From 9180cadf600a1c35e48470602cd06fd56ff9d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 28/36] fix: centroid of a face of a 1D mesh

It was never set, so it was the origin.
---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 8fd0d1c..75da90d 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1367,6 +1367,7 @@ int Mesh::compute_face_geometry(const Entity_ID faceid, double *area,
     face_get_coordinates(faceid, &fcoords);
 
     JaliGeometry::face1d_get_area(fcoords, geomtype, area);
+    *centroid = fcoords[0];
     JaliGeometry::Point normal(space_dim_);
     normal.set(*area);
 
-- 
2.43.0


From cc55e507530763cb758115d3223644161445188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 29/36] fix: clear the facets of a 1D corner before filling
 them in

The 2D and 3D versions do.
---
 src/mesh/Mesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 75da90d..3cba33f 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -2183,6 +2183,7 @@ Mesh::corner_get_facetization(const Entity_ID cornerid,
   Entity_ID_List cwedges;
   corner_get_wedges(cornerid, &cwedges);
   wedge_get_coordinates(cwedges[0], pointcoords);
+  facetpoints->clear();
   // ordering is because wedge_get_coordinates comes back in (node, cell) order
   // and node is the facet external to the zone and cell is the facet between
   // the wedges of the side, which is consistent with 2/3D.
-- 
2.43.0


From ce7b2216f5b30c927efe96f599b8fb29ca5a8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:31 +0000
Subject: [PATCH 30/36] fix: positive order of the coordinates of a 1D wedge

Both wedges of a 1D side have the same points, so whether to swap them
depends on the node of the cell they are at and not on their number.
---
 src/mesh/Mesh.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 3cba33f..35d3083 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -1934,13 +1934,16 @@ void Mesh::wedge_get_coordinates(const Entity_ID wedgeid,
   // they will give a +ve volume, we have to reverse the coordinate
   // order for odd numbered wedges. This follows by the convention
   // used for retrieving side coordinates and for the numbering of
-  // wedges.
+  // wedges. In 1D, both wedges of a side are the same, so we have to
+  // check which node of the cell the wedge is at
 
-  if (posvol_order && wedgeid%2) {
-    if (manifold_dim_ == 1)
+  if (posvol_order && manifold_dim_ == 1) {
+    Entity_ID_List cnodes;
+    cell_get_nodes(c, &cnodes);
+    if (n == cnodes[1])
       std::swap((*wcoords)[0], (*wcoords)[1]);
-    else
-      std::swap((*wcoords)[1], (*wcoords)[2]);
+  } else if (posvol_order && wedgeid%2) {
+    std::swap((*wcoords)[1], (*wcoords)[2]);
   }
 }  // wedge_get_coordinates
 
-- 
2.43.0


From 81b6a43edb70b31506e50c0f158a3b495e3498e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 31/36] fix: faces connected to a node of a 3D simple mesh

The xz and yz faces were entered under the numbers of xy faces.
---
 src/mesh/mesh_simple/Mesh_simple.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 49fa082..945b89a 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -551,22 +551,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix+1, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = xzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
   // finally we do the yz faces
@@ -584,22 +584,22 @@ void Mesh_simple::update_internals_3d_() {
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy+1, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
 
         jstart = faces_per_node_aug_*node_index_(ix, iy, iz+1);
         nfaces = node_to_face_[jstart];
-        node_to_face_[jstart+1+nfaces] = xyface_index_(ix, iy, iz);
+        node_to_face_[jstart+1+nfaces] = yzface_index_(ix, iy, iz);
         (node_to_face_[jstart])++;
       }
 
-- 
2.43.0


From 608c0363c8dd4488e9e6c83edf6b5018327ae130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 32/36] fix: neighbors of a simple mesh by type

All entities are owned, so there are no ghost neighbors, but the queries
ignored the type asked for and returned the owned ones.
---
 src/mesh/mesh_simple/Mesh_simple.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/mesh_simple/Mesh_simple.cc b/src/mesh/mesh_simple/Mesh_simple.cc
index 945b89a..830635e 100644
--- a/src/mesh/mesh_simple/Mesh_simple.cc
+++ b/src/mesh/mesh_simple/Mesh_simple.cc
@@ -796,6 +796,8 @@ void Mesh_simple::node_get_cells(const Jali::Entity_ID nodeid,
   unsigned int ncells = node_to_cell_[offset];
 
   cellids->clear();
+  if (ptype != Entity_type::ALL && ptype != Entity_type::PARALLEL_OWNED)
+    return;  // all entities are owned
 
   for (int i = 0; i < ncells; i++)
     cellids->push_back(node_to_cell_[offset+i+1]);
@@ -810,6 +812,8 @@ void Mesh_simple::node_get_faces(const Jali::Entity_ID nodeid,
   unsigned int nfaces = node_to_face_[offset];
 
   faceids->clear();
+  if (ptype != Entity_type::ALL && ptype != Entity_type::PARALLEL_OWNED)
+    return;  // all entities are owned
 
   for (int i = 0; i < nfaces; i++)
     faceids->push_back(node_to_face_[offset+i+1]);
@@ -826,6 +830,8 @@ void Mesh_simple::node_get_cell_faces(const Jali::Entity_ID nodeid,
   unsigned int offset = (unsigned int) faces_per_cell_*cellid;
 
   faceids->clear();
+  if (ptype != Entity_type::ALL && ptype != Entity_type::PARALLEL_OWNED)
+    return;  // all entities are owned
 
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID cellfaceid = cell_to_face_[offset+i];
@@ -851,6 +857,8 @@ void Mesh_simple::face_get_cells_internal(const Jali::Entity_ID faceid,
   unsigned int offset = (unsigned int) 2*faceid;
 
   cellids->clear();
+  if (ptype != Entity_type::ALL && ptype != Entity_type::PARALLEL_OWNED)
+    return;  // all entities are owned
 
   if (face_to_cell_[offset] != -1)
     cellids->push_back(face_to_cell_[offset]);
@@ -877,6 +885,8 @@ void Mesh_simple::cell_get_face_adj_cells(const Jali::Entity_ID cellid,
   unsigned int offset = (unsigned int) faces_per_cell_*cellid;
 
   fadj_cellids->clear();
+  if (ptype != Entity_type::ALL && ptype != Entity_type::PARALLEL_OWNED)
+    return;  // all entities are owned
 
   for (int i = 0; i < faces_per_cell_; i++) {
     Entity_ID faceid = cell_to_face_[offset];
@@ -907,6 +917,8 @@ void Mesh_simple::cell_get_node_adj_cells(const Jali::Entity_ID cellid,
   unsigned int offset = (unsigned int) nodes_per_cell_*cellid;
 
   nadj_cellids->clear();
+  if (ptype != Entity_type::ALL && ptype != Entity_type::PARALLEL_OWNED)
+    return;  // all entities are owned
 
   for (int i = 0; i < nodes_per_cell_; i++) {
     Entity_ID nodeid = cell_to_node_[offset+i];
-- 
2.43.0


From ea57302de77f5b074ba76757ba4a43d22d4f43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:01 +0000
Subject: [PATCH 33/36] fix: tiles list sides when sides, not wedges, are
 requested

---
 src/mesh/MeshTile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 9ed9800..5f7f2e4 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -249,7 +249,7 @@ MeshTile::MeshTile(Mesh& parent_mesh,
                         edgeids_ghost_.begin(), edgeids_ghost_.end());
   }
 
-  if (request_wedges) {
+  if (request_sides) {
     for (auto const& c : cellids_owned_) {
       std::vector<int> csides;
       mesh_.cell_get_sides(c, &csides);
-- 
2.43.0


From 9b114fb3b584d2b91d384114fe72952c5dced70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:10 +0000
Subject: [PATCH 34/36] fix: ghost entities of a tile in a set

A tile's ghost entities are mostly owned by the mesh (and its owned
nodes, edges and faces may be ghosts of the mesh), so they have to be
looked for among all entities of the set.
---
 src/mesh/MeshTile.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mesh/MeshTile.cc b/src/mesh/MeshTile.cc
index 5f7f2e4..3aaebdb 100644
--- a/src/mesh/MeshTile.cc
+++ b/src/mesh/MeshTile.cc
@@ -382,7 +382,8 @@ void MeshTile::get_set_entities(const Set_Name setname, const Entity_kind kind,
 void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::NODE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::NODE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -406,7 +407,8 @@ void MeshTile::get_nodes_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::EDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::EDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -430,7 +432,8 @@ void MeshTile::get_edges_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::FACE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::FACE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -454,7 +457,8 @@ void MeshTile::get_faces_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::SIDE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::SIDE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -478,7 +482,8 @@ void MeshTile::get_sides_of_set(const Set_Name setname, const Entity_type type,
 void MeshTile::get_wedges_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::WEDGE, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::WEDGE, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -503,7 +508,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
                                   const Entity_type type,
                                   Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CORNER, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CORNER, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
@@ -527,7 +533,8 @@ void MeshTile::get_corners_of_set(const Set_Name setname,
 void MeshTile::get_cells_of_set(const Set_Name setname, const Entity_type type,
                                 Entity_ID_List *entids) const {
   Entity_ID_List setents_mesh;
-  mesh_.get_set_entities(setname, Entity_kind::CELL, type, &setents_mesh);
+  mesh_.get_set_entities(setname, Entity_kind::CELL, Entity_type::ALL,
+                         &setents_mesh);
 
   Entity_ID_List const *entlist_tile;
   switch (type) {
-- 
2.43.0


From 7afd9d99117a4f3ac1f7a9579ddde858d76c1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:39 +0000
Subject: [PATCH 35/36] fix: refuse a number of blocks that the cells of the
 grid cannot be divided into

With no blocks or more blocks than cells asked for, block_partition_regular_mesh
went on for ever or made blocks of its own liking; report failure as documented.
---
 src/mesh/Mesh.cc            | 13 +++++++++----
 src/mesh/block_partition.cc |  9 +++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/mesh/Mesh.cc b/src/mesh/Mesh.cc
index 35d3083..92ea4c4 100644
--- a/src/mesh/Mesh.cc
+++ b/src/mesh/Mesh.cc
@@ -3379,10 +3379,15 @@ void Mesh::get_partitioning_by_blocks(int const num_parts,
   std::array<double, 6> iarray0 = {0.0, 0.0, 0.0, 0.0, 0.0, 0.0};
   std::vector<std::array<double, 6>> blocklimits(num_parts, iarray0);
 
-  block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
-                               &(num_cells_in_dir[0]), num_parts,
-                               &block_start_indices, &block_num_cells);
-  
+  int ok = block_partition_regular_mesh(space_dim_, &(domainlimits[0]),
+                                        &(num_cells_in_dir[0]), num_parts,
+                                        &block_start_indices, &block_num_cells);
+  if (!ok) {
+    std::cerr << "Could not partition the mesh into " << num_parts <<
+        " blocks\n";
+    return;
+  }
+
   std::array<double, 3> szdelta;
   for (int d = 0; d < space_dim_; d++)
     szdelta[d] = (domainlimits[2*d+1] - domainlimits[2*d])/num_cells_in_dir[d];
diff --git a/src/mesh/block_partition.cc b/src/mesh/block_partition.cc
index e4e3bc6..2a8ea89 100644
--- a/src/mesh/block_partition.cc
+++ b/src/mesh/block_partition.cc
@@ -67,7 +67,8 @@ namespace Jali {
   block_start_indices   start node/cell indices for each block
   block_num_cells num   cells in each direction for blocks
 
-  Returns 1 if successful, 0 otherwise
+  Returns 1 if successful, 0 otherwise (no blocks were requested or
+  there are more of them than cells)
 */
 
 int block_partition_regular_mesh(int const dim,
@@ -89,9 +90,9 @@ int block_partition_regular_mesh(int const dim,
   int ncells_total = 1;
   for (int i = 0; i < dim; i++)
     ncells_total *= num_cells_in_dir[i];
-  assert (num_blocks_requested <= ncells_total);
-    
-  
+  if (num_blocks_requested < 1 || num_blocks_requested > ncells_total)
+    return 0;
+
   if (num_blocks_requested > 1) {
     // First try bisection
     
-- 
2.43.0


From 4ac562bbb2512a312b0b804948736b8da756c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:09 +0000
Subject: [PATCH 36/36] fix: initialise every member of meshes and regions

A default made region had any dimension and lifecycle, and a mesh could claim to
have cached the nodes of its edges.
---
 src/geometry/Region.cc | 6 +++---
 src/mesh/Mesh.hh       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/Region.cc b/src/geometry/Region.cc
index 2be45b0..2d3e2a0 100644
--- a/src/geometry/Region.cc
+++ b/src/geometry/Region.cc
@@ -67,10 +67,10 @@ namespace JaliGeometry {
 // -------------------------------------------------------------
 // Region:: constructors / destructor
 // -------------------------------------------------------------
-Region::Region()
+Region::Region() :
+  topo_dimension_(0), name_(""), id_(0), lifecycle_(LifeCycle_type::PERMANENT)
 {
-  name_ = "";
-  id_ = 0;
+  // empty
 }
 
 Region::Region(const Region& old) :
diff --git a/src/mesh/Mesh.hh b/src/mesh/Mesh.hh
index 8d04b11..c905509 100644
--- a/src/mesh/Mesh.hh
+++ b/src/mesh/Mesh.hh
@@ -177,7 +177,7 @@ class Mesh {
     partitioner_pref_(partitioner),
     cell2face_info_cached(false), face2cell_info_cached(false),
     cell2edge_info_cached(false), face2edge_info_cached(false),
-    side_info_cached(false), wedge_info_cached(false),
+    edge2node_info_cached(false), side_info_cached(false), wedge_info_cached(false),
     corner_info_cached(false), type_info_cached(false),
     geometric_model_(NULL), comm(incomm),
     geomtype(geom_type) {
-- 
2.43.0

