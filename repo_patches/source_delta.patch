From 474ee6c62829b70cb2f5a1e9d6672b291533e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 01/24] fix: use each particle's own mass for cluster centers
 of mass

---
 freud/cluster/ClusterProperties.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..86854da 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -44,8 +44,9 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
     m_cluster_sizes = std::make_shared<util::ManagedArray<unsigned int>>(num_clusters);
     m_cluster_masses = std::make_shared<util::ManagedArray<float>>(num_clusters);
 
-    // Create a vector to store cluster points, used to compute center of mass
+    // Create vectors to store cluster points and masses, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -57,24 +58,17 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         cluster_points[c].push_back((*nq)[i]);
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
+        cluster_point_masses[c].push_back(mass);
         (*m_cluster_masses)[c] += mass;
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c],
+            (masses != nullptr) ? cluster_point_masses[c].data() : nullptr);
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 22f4a0d8e4c9842ae43ff2c159d32a63a2348ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 02/24] fix: index orientations by point and query_orientations
 by query point

---
 freud/environment/AngularSeparation.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From a7e899393d8d60b6dc271c6a2e45276390e47f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 03/24] fix: bond vectors of all_pairs and FilterRAD point from
 query point to point

---
 freud/locality/FilterRAD.cc    | 4 ++--
 freud/locality/NeighborList.cc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..e4d6513 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -67,14 +67,14 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
             for (unsigned int j = 0; j < num_unfiltered_neighbors; j++)
             {
                 const auto first_neighbor_idx = sorted_neighbors(first_idx + j, 1);
-                const auto v1 = box.wrap(query_points[i] - points[first_neighbor_idx]);
+                const auto v1 = box.wrap(points[first_neighbor_idx] - query_points[i]);
                 good_neighbor = true;
 
                 // loop over particles which may be blocking the neighbor j
                 for (unsigned int k = 0; k < j; k++)
                 {
                     const auto second_neighbor_idx = sorted_neighbors(first_idx + k, 1);
-                    const auto v2 = box.wrap(query_points[i] - points[second_neighbor_idx]);
+                    const auto v2 = box.wrap(points[second_neighbor_idx] - query_points[i]);
                     const float first_neighbor_radius = points_radii[first_neighbor_idx];
                     const float second_neighbor_radius = points_radii[second_neighbor_idx];
                     const float first_neighbor_radius_sq = first_neighbor_radius * first_neighbor_radius;
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..83b7056 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -118,7 +118,7 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_neighbors)(bond_idx, 0) = i;
                 (*m_neighbors)(bond_idx, 1) = j;
                 (*m_weights)(bond_idx) = 1.0;
-                const auto dr = box.wrap(query_points[i] - points[j]);
+                const auto dr = -box.wrap(query_points[i] - points[j]);
                 (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
                 (*m_vectors)(bond_idx) = dr;
                 ++bond_idx;
-- 
2.43.0


From e1cea54e7dccc16e81b1ef53ec9d074396d9b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 04/24] fix: FilterRAD keeps the weights of the bonds it
 selects

---
 freud/locality/FilterRAD.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index e4d6513..1093e32 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -93,7 +93,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), v1);
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From c8b6ddb13af312444e5d4e0b55eb763830a2fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 05/24] fix: filtered neighbor lists keep the system's numbers
 of points and query points

---
 freud/locality/FilterRAD.cc    |  2 +-
 freud/locality/FilterSANN.cc   |  2 +-
 freud/locality/NeighborList.cc | 34 +++++++---------------------------
 freud/locality/NeighborList.h  |  2 +-
 4 files changed, 10 insertions(+), 30 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 1093e32..5cd9ed6 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -128,7 +128,7 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds, num_query_points, nq->getNPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..513c860 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,7 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds, num_query_points, nq->getNPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 83b7056..674f08d 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -127,35 +127,22 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
+NeighborList::NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points), m_segments_counts_updated(false),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2})),
+      m_segments(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points)),
+      m_counts(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
             auto bond = bonds[i];
 
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
-
             // fill in array data
             (*m_distances)(i) = bond.getDistance();
             (*m_weights)(i) = bond.getWeight();
@@ -164,13 +151,6 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
             (*m_vectors)(i) = bond.getVector();
         }
     });
-
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..95c5a70 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,7 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(std::vector<NeighborBond> bonds, unsigned int num_query_points, unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From 3319dbde99ce2c404455095abb8dbd5170bdfd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 06/24] fix: changing a box's dimensionality updates all its
 derived lengths

---
 freud/box/Box.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..25b5c8e 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -117,9 +117,8 @@ public:
     //! Set whether box is 2D
     void set2D(bool _2d)
     {
-        m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        m_2d = _2d; // Assign before calling setL!
+        setL(m_L.x, m_L.y, m_L.z);
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From 46ac7ded06d4a5d0bea1e1b1366ececfaff2d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 07/24] fix: native box equality compares dimensionality

---
 freud/box/Box.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 25b5c8e..bbd9bc3 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -84,7 +84,8 @@ public:
 
     bool operator==(const Box& b) const
     {
-        return ((this->getL() == b.getL()) && (this->getTiltFactorXY() == b.getTiltFactorXY())
+        return ((this->getL() == b.getL()) && (this->is2D() == b.is2D())
+                && (this->getTiltFactorXY() == b.getTiltFactorXY())
                 && (this->getTiltFactorXZ() == b.getTiltFactorXZ())
                 && (this->getTiltFactorYZ() == b.getTiltFactorYZ())
                 && (this->getPeriodicX() == b.getPeriodicX()) && (this->getPeriodicY() == b.getPeriodicY())
-- 
2.43.0


From 12fa6cd727f6163153730a6126d314f0674d0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 08/24] fix: Cubatic seeds its random numbers per replicate

---
 freud/order/Cubatic.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..2466f5e 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,18 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create replicate-specific rng
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 8d6dc7e1d568c1f564b7e5531fe3a25d4a369660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 09/24] fix: CellQuery rejects non-periodic boxes like the
 other queries

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..4451135 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,13 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    // pair calculations using non-periodic boxes should fail
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From e9ea07ceb31fc7e0faab9a383dfb642394c29995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/24] fix: computations validate a user-supplied neighbor
 list against the system

---
 freud/locality/NeighborComputeFunctional.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 1549a297bd410ed71cbbf39cb1a6b498fcdcba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 11/24] fix: LinkCell.cell_width is readable

---
 freud/locality/export-NeighborQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/export-NeighborQuery.cc b/freud/locality/export-NeighborQuery.cc
index 974f4b1..254f3b3 100644
--- a/freud/locality/export-NeighborQuery.cc
+++ b/freud/locality/export-NeighborQuery.cc
@@ -84,7 +84,7 @@ void export_LinkCell(nb::module_& module)
 {
     nb::class_<LinkCell, NeighborQuery>(module, "LinkCell")
         .def("__init__", &wrap::LinkCellConstructor)
-        .def("GetCellWidth", &LinkCell::getCellWidth);
+        .def("getCellWidth", &LinkCell::getCellWidth);
 }
 
 void export_RawPoints(nb::module_& module)
-- 
2.43.0


From 3708184d1422320489bc33030412e11b270c285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 12/24] fix: NeighborList.filter checks the length of its
 argument

---
 freud/locality.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..0acc258 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -719,7 +719,9 @@ class NeighborList:
             # Keep only the bonds between particles of type A and type B
             nlist.filter(types[nlist.query_point_indices] != types[nlist.point_indices])
         """  # E501
-        filt = np.ascontiguousarray(filt, dtype=bool)
+        filt = freud.util._convert_array(
+            filt, shape=(self._cpp_obj.getNumBonds(),), dtype=bool
+        )
         self._cpp_obj.filter(filt)
         return self
 
-- 
2.43.0


From c9a2f3dddf4e1973c02d4c0bd414b63032bf302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 13/24] fix: ClusterProperties checks the number of masses

---
 freud/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
-- 
2.43.0


From 978f99f33d6b6e0bf177c0dfc0b10bbb3f4344cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 14/24] fix: LocalBondProjection checks the number of
 orientations

---
 freud/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/environment.py b/freud/environment.py
index edb2681..1323cc4 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -1055,7 +1055,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
-- 
2.43.0


From 07dcc7c66ce44608048f5efeca6a0249c585b9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 15/24] fix: MSD results stay unavailable after a failed
 compute

---
 freud/msd.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/freud/msd.py b/freud/msd.py
index 21b4aed..e35cbc1 100644
--- a/freud/msd.py
+++ b/freud/msd.py
@@ -194,8 +194,6 @@ class MSD(_Compute):
         if reset:
             self._particle_msd = []
 
-        self._called_compute = True
-
         positions = freud.util._convert_array(positions, shape=(None, None, 3))
         if images is not None:
             images = freud.util._convert_array(
-- 
2.43.0


From 1571626fb058c3944f11b71858328f3f7a4953c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/24] fix: RDF repr includes the normalization mode

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index c47ad95..ba4d986 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -664,7 +664,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode='{self.mode}')"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From 6ad204a207f6a0aec562c3baf9f94343c346a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 17/24] fix: from_system uses its dimensions argument

---
 freud/locality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/locality.py b/freud/locality.py
index 0acc258..5dfc9a8 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -374,6 +374,12 @@ class NeighborQuery:
         elif hasattr(system, "box") and hasattr(system, "points"):
             system = (system.box, system.points)
 
+        if dimensions is not None:
+            box = system[0]
+            if not isinstance(box, freud.box.Box):
+                box = freud.box.Box.from_box(box, dimensions=dimensions)
+            system = (freud.util._convert_box(box, dimensions), *system[1:])
+
         if cls == NeighborQuery:
             # If called from this abstract parent class, always make
             # :class:`~._RawPoints`.
-- 
2.43.0


From e81ec90e389364967b8ec7050920ab6076db81a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 18/24] fix: defaulted per-query-point arrays are checked for
 length

---
 freud/density.py     | 11 +++++------
 freud/environment.py |  7 +++----
 freud/pmft.py        | 14 ++++++--------
 3 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index ba4d986..b8228bc 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -119,12 +119,11 @@ class CorrelationFunction(_SpatialHistogram1D):
         )
         if query_values is None:
             query_values = values
-        else:
-            query_values = freud.util._convert_array(
-                query_values,
-                shape=(l_query_points.shape[0],),
-                dtype=np.complex128,
-            )
+        query_values = freud.util._convert_array(
+            query_values,
+            shape=(l_query_points.shape[0],),
+            dtype=np.complex128,
+        )
         self._cpp_obj.accumulate(
             nq._cpp_obj,
             values,
diff --git a/freud/environment.py b/freud/environment.py
index 1323cc4..130ca21 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..fb1ca5e 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -198,10 +198,9 @@ class PMFTR12(_PMFT):
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = _gen_angle_array(
-                query_orientations, shape=(query_points.shape[0],)
-            )
+        query_orientations = _gen_angle_array(
+            query_orientations, shape=(query_points.shape[0],)
+        )
 
         self._cpp_obj.accumulate(
             nq._cpp_obj,
@@ -300,10 +299,9 @@ class PMFTXYT(_PMFT):
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = _gen_angle_array(
-                query_orientations, shape=(query_points.shape[0],)
-            )
+        query_orientations = _gen_angle_array(
+            query_orientations, shape=(query_points.shape[0],)
+        )
 
         self._cpp_obj.accumulate(
             nq._cpp_obj,
-- 
2.43.0


From 1fd1c6e4e8383594e7acb3d22acd1b830a209ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:49 +0000
Subject: [PATCH 19/24] fix: nearest-neighbor queries with a large r_guess use
 minimum images

---
 freud/locality/AABBQuery.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..55dda3f 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -166,6 +166,12 @@ NeighborBond AABBQueryIterator::next()
     // search for new neighbors the first time next is called.
     if (m_current_neighbors.empty())
     {
+        // A large initial guess may already exceed the safe search distance.
+        if (m_r_cur > min_plane_distance / 2)
+        {
+            m_search_extended = true;
+        }
+
         // Continually perform ball queries until the termination conditions are met.
         while (true)
         {
-- 
2.43.0


From 08e7e1a6f964a78d4076c1f93e227c5860f4f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 20/24] fix: PMFTs reject a zero range, as their error messages
 say

PMFTXY, PMFTXYT, PMFTXYZ and PMFTR12 require positive maxima but tested only
for negative values, so a zero maximum built a histogram with zero-width bins.
---
 freud/pmft/PMFTR12.cc | 2 +-
 freud/pmft/PMFTXY.cc  | 4 ++--
 freud/pmft/PMFTXYT.cc | 4 ++--
 freud/pmft/PMFTXYZ.cc | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/freud/pmft/PMFTR12.cc b/freud/pmft/PMFTR12.cc
index b8533d9..bc1f8be 100644
--- a/freud/pmft/PMFTR12.cc
+++ b/freud/pmft/PMFTR12.cc
@@ -39,7 +39,7 @@ PMFTR12::PMFTR12(float r_max, unsigned int n_r, unsigned int n_t1, unsigned int
     {
         throw std::invalid_argument("PMFTR12 requires at least 1 bin in T2.");
     }
-    if (r_max < 0)
+    if (r_max <= 0)
     {
         throw std::invalid_argument("PMFTR12 requires that r_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXY.cc b/freud/pmft/PMFTXY.cc
index 80f1905..a6e65cf 100644
--- a/freud/pmft/PMFTXY.cc
+++ b/freud/pmft/PMFTXY.cc
@@ -32,11 +32,11 @@ PMFTXY::PMFTXY(float x_max, float y_max, unsigned int n_x, unsigned int n_y) : P
     {
         throw std::invalid_argument("PMFTXY requires at least 1 bin in Y.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXY requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXY requires that y_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXYT.cc b/freud/pmft/PMFTXYT.cc
index 2bd3e47..ec70bfc 100644
--- a/freud/pmft/PMFTXYT.cc
+++ b/freud/pmft/PMFTXYT.cc
@@ -39,11 +39,11 @@ PMFTXYT::PMFTXYT(float x_max, float y_max, unsigned int n_x, unsigned int n_y, u
     {
         throw std::invalid_argument("PMFTXYT requires at least 1 bin in T.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXYT requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXYT requires that y_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXYZ.cc b/freud/pmft/PMFTXYZ.cc
index 4cd2df2..4e689e5 100644
--- a/freud/pmft/PMFTXYZ.cc
+++ b/freud/pmft/PMFTXYZ.cc
@@ -36,15 +36,15 @@ PMFTXYZ::PMFTXYZ(float x_max, float y_max, float z_max, unsigned int n_x, unsign
     {
         throw std::invalid_argument("PMFTXYZ requires at least 1 bin in Z.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that y_max must be positive.");
     }
-    if (z_max < 0)
+    if (z_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that z_max must be positive.");
     }
-- 
2.43.0


From d3cf04479a5a5e0dd4b77c6b0f96e5e7c1739b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 21/24] fix: GaussianDensity and SphereVoxelization reject zero
 widths and non-positive sigma

A zero bin count divided the box length by zero and cast the infinite grid
spacing to an integer; a zero sigma divided the exponent by zero.
---
 freud/density/GaussianDensity.cc    | 8 ++++++++
 freud/density/SphereVoxelization.cc | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..a4bd78b 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -28,6 +28,14 @@ GaussianDensity::GaussianDensity(vec3<unsigned int> width, float r_max, float si
     {
         throw std::invalid_argument("GaussianDensity requires r_max to be positive.");
     }
+    if (width.x == 0 || width.y == 0 || width.z == 0)
+    {
+        throw std::invalid_argument("GaussianDensity requires a nonzero number of bins in each dimension.");
+    }
+    if (sigma <= 0)
+    {
+        throw std::invalid_argument("GaussianDensity requires sigma to be positive.");
+    }
 }
 
 //! Get a reference to the last computed Density
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..018586f 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -25,6 +25,10 @@ SphereVoxelization::SphereVoxelization(vec3<unsigned int> width, float r_max)
     {
         throw std::invalid_argument("SphereVoxelization requires r_max to be positive.");
     }
+    if (width.x == 0 || width.y == 0 || width.z == 0)
+    {
+        throw std::invalid_argument("SphereVoxelization requires a nonzero number of bins in each dimension.");
+    }
 }
 
 //! Get a reference to the last computed voxels.
-- 
2.43.0


From 6cb24c6b4c2241d7511812fa19a8a71a6498dd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 22/24] fix: Cubatic rejects zero replicates when constructed

---
 freud/order/Cubatic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 2466f5e..72b4105 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -152,6 +152,10 @@ Cubatic::Cubatic(float t_initial, float t_final, float scale, unsigned int n_rep
     {
         throw std::invalid_argument("Cubatic requires that scale must be between 0 and 1.");
     }
+    if (n_replicates == 0)
+    {
+        throw std::invalid_argument("Cubatic requires at least one replicate.");
+    }
 
     m_gen_r4_tensor = genR4Tensor();
 
-- 
2.43.0


From 7478599667992f55950c09ee0951c462b2991fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 23/24] fix: the center of mass does not wrap in non-periodic
 directions

Box.center_of_mass and Box.center averaged positions on a circle in every
direction, so in a non-periodic direction points on both sides of the box had
their center of mass at the boundary instead of between them.
---
 freud/box/Box.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index bbd9bc3..059efb8 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -376,21 +376,39 @@ public:
         // https://en.wikipedia.org/wiki/Center_of_mass#Systems_with_periodic_boundary_conditions
         float total_mass(0);
         vec3<std::complex<float>> xi_mean;
+        vec3<float> frac_mean(0, 0, 0);
 
         for (size_t i = 0; i < Nvecs; ++i)
         {
-            vec3<float> const phase(constants::TWO_PI * makeFractional(vecs[i]));
+            vec3<float> const frac(makeFractional(vecs[i]));
+            vec3<float> const phase(constants::TWO_PI * frac);
             vec3<std::complex<float>> const xi(std::polar(float(1.0), phase.x),
                                                std::polar(float(1.0), phase.y),
                                                std::polar(float(1.0), phase.z));
             float const mass = (masses != nullptr) ? masses[i] : float(1.0);
             total_mass += mass;
             xi_mean += std::complex<float>(mass, 0) * xi;
+            frac_mean += mass * frac;
         }
         xi_mean /= std::complex<float>(total_mass, 0);
+        frac_mean /= total_mass;
 
-        return wrap(makeAbsolute(vec3<float>(std::arg(xi_mean.x), std::arg(xi_mean.y), std::arg(xi_mean.z))
-                                 / constants::TWO_PI));
+        // Directions that are not periodic have an ordinary mean.
+        vec3<float> com(vec3<float>(std::arg(xi_mean.x), std::arg(xi_mean.y), std::arg(xi_mean.z))
+                        / constants::TWO_PI);
+        if (!m_periodic.x)
+        {
+            com.x = frac_mean.x;
+        }
+        if (!m_periodic.y)
+        {
+            com.y = frac_mean.y;
+        }
+        if (!m_periodic.z)
+        {
+            com.z = frac_mean.z;
+        }
+        return wrap(makeAbsolute(com));
     }
 
     //! Subtract center of mass from vectors
-- 
2.43.0


From ce46d2bb044e7f9ec8b83be375c87f3166acd7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 24/24] fix: FilterRAD uses and keeps the vectors of the bonds
 it filters

Bond vectors were recomputed as minimum images of the points, so the bonds of
a filtered list could have a vector and a distance that do not belong together
when the unfiltered list held other periodic images.
---
 freud/locality/FilterRAD.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 5cd9ed6..4587843 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -43,11 +43,10 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     std::vector<unsigned int> unfilled_qps(sorted_nlist.getNumQueryPoints(),
                                            std::numeric_limits<unsigned int>::max());
 
-    const auto& points = nq->getPoints();
-    const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
     const auto& sorted_weights = *sorted_nlist.getWeights();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
     using BondVector = tbb::enumerable_thread_specific<std::vector<NeighborBond>>;
@@ -67,14 +66,14 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
             for (unsigned int j = 0; j < num_unfiltered_neighbors; j++)
             {
                 const auto first_neighbor_idx = sorted_neighbors(first_idx + j, 1);
-                const auto v1 = box.wrap(points[first_neighbor_idx] - query_points[i]);
+                const auto v1 = sorted_vecs(first_idx + j);
                 good_neighbor = true;
 
                 // loop over particles which may be blocking the neighbor j
                 for (unsigned int k = 0; k < j; k++)
                 {
                     const auto second_neighbor_idx = sorted_neighbors(first_idx + k, 1);
-                    const auto v2 = box.wrap(points[second_neighbor_idx] - query_points[i]);
+                    const auto v2 = sorted_vecs(first_idx + k);
                     const float first_neighbor_radius = points_radii[first_neighbor_idx];
                     const float second_neighbor_radius = points_radii[second_neighbor_idx];
                     const float first_neighbor_radius_sq = first_neighbor_radius * first_neighbor_radius;
-- 
2.43.0

