From acf4380c7bbf3f3792e4ea3a5ee4d40200612891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 1/7] fix: derivatives of multi-element patches with respect to
 the patch coordinates

The tangents were left with respect to the local coordinate of the knot
element; divide by the element lengths.
---
 Bembel/src/Geometry/Patch.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/Bembel/src/Geometry/Patch.hpp b/Bembel/src/Geometry/Patch.hpp
index 4c0a121..405b349 100644
--- a/Bembel/src/Geometry/Patch.hpp
+++ b/Bembel/src/Geometry/Patch.hpp
@@ -221,11 +221,16 @@ class Patch {
     // Eigen::Vector3d out;
 
     double bot = 1. / (tmp[3] * tmp[3]);
+    // inner derivatives of the rescaling to the knot elements
+    const double hx =
+        unique_knots_x_[x_location + 1] - unique_knots_x_[x_location];
+    const double hy =
+        unique_knots_y_[y_location + 1] - unique_knots_y_[y_location];
 
 #pragma omp simd
     for (int k = 0; k < 3; k++) {
-      out(k, 0) = (tmpDx[k] * tmp[3] - tmp[k] * tmpDx[3]) * bot;
-      out(k, 1) = (tmpDy[k] * tmp[3] - tmp[k] * tmpDy[3]) * bot;
+      out(k, 0) = (tmpDx[k] * tmp[3] - tmp[k] * tmpDx[3]) * bot / hx;
+      out(k, 1) = (tmpDy[k] * tmp[3] - tmp[k] * tmpDy[3]) * bot / hy;
     }
 
     return out;
@@ -347,6 +352,11 @@ class Patch {
 
     const double bot = 1. / tmp[3];
     const double botsqr = bot * bot;
+    // inner derivatives of the rescaling to the knot elements
+    const double hx =
+        unique_knots_x_[x_location + 1] - unique_knots_x_[x_location];
+    const double hy =
+        unique_knots_y_[y_location + 1] - unique_knots_y_[y_location];
 
     (*srf_pt)(0) = xi(0);
     (*srf_pt)(1) = xi(1);
@@ -354,12 +364,12 @@ class Patch {
     (*srf_pt)(3) = tmp[0] * bot;
     (*srf_pt)(4) = tmp[1] * bot;
     (*srf_pt)(5) = tmp[2] * bot;
-    (*srf_pt)(6) = (tmpDx[0] * tmp[3] - tmp[0] * tmpDx[3]) * botsqr;
-    (*srf_pt)(7) = (tmpDx[1] * tmp[3] - tmp[1] * tmpDx[3]) * botsqr;
-    (*srf_pt)(8) = (tmpDx[2] * tmp[3] - tmp[2] * tmpDx[3]) * botsqr;
-    (*srf_pt)(9) = (tmpDy[0] * tmp[3] - tmp[0] * tmpDy[3]) * botsqr;
-    (*srf_pt)(10) = (tmpDy[1] * tmp[3] - tmp[1] * tmpDy[3]) * botsqr;
-    (*srf_pt)(11) = (tmpDy[2] * tmp[3] - tmp[2] * tmpDy[3]) * botsqr;
+    (*srf_pt)(6) = (tmpDx[0] * tmp[3] - tmp[0] * tmpDx[3]) * botsqr / hx;
+    (*srf_pt)(7) = (tmpDx[1] * tmp[3] - tmp[1] * tmpDx[3]) * botsqr / hx;
+    (*srf_pt)(8) = (tmpDx[2] * tmp[3] - tmp[2] * tmpDx[3]) * botsqr / hx;
+    (*srf_pt)(9) = (tmpDy[0] * tmp[3] - tmp[0] * tmpDy[3]) * botsqr / hy;
+    (*srf_pt)(10) = (tmpDy[1] * tmp[3] - tmp[1] * tmpDy[3]) * botsqr / hy;
+    (*srf_pt)(11) = (tmpDy[2] * tmp[3] - tmp[2] * tmpDy[3]) * botsqr / hy;
     delete[] buffer;
     return;
   }
-- 
2.43.0


From 0e463f626771c12244cebab77141759da6294932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 2/7] fix: patches sharing several edges in the element tree

Identify the matching edge of a neighbour by its end points and list every
element next to a refined one only once.
---
 Bembel/src/ClusterTree/ElementTree.hpp | 30 ++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index 6c7bb1b..430763d 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -520,7 +520,8 @@ class ElementTree {
             int k = 0;
             for (; k < 4; ++k)
               if (cur_neighbour.adjcents_[k] != nullptr &&
-                  cur_neighbour.adjcents_[k]->id_ == it->id_)
+                  cur_neighbour.adjcents_[k]->id_ == it->id_ &&
+                  isSameEdge(*it, j, cur_neighbour, k))
                 break;
             retval.push_back({it->id_, cur_neighbour.id_, j, k});
           }
@@ -576,6 +577,18 @@ class ElementTree {
       return ((v1 - v2).norm() < Constants::pt_comp_tolerance);
     }
   };
+  /**
+   * \brief checks whether edge i of el1 and edge j of el2 have the same end
+   *        points, since two elements may share more than one edge
+   */
+  static bool isSameEdge(const ElementTreeNode &el1, int i,
+                         const ElementTreeNode &el2, int j) {
+    const int v1 = el1.vertices_[i];
+    const int v2 = el1.vertices_[(i + 1) % 4];
+    const int v3 = el2.vertices_[j];
+    const int v4 = el2.vertices_[(j + 1) % 4];
+    return (v1 == v3 && v2 == v4) || (v1 == v4 && v2 == v3);
+  }
   /**
    * \brief function to set up the local topology, i.e. the adjacents
    *        of a refined element
@@ -632,7 +645,8 @@ class ElementTree {
       // is there a neighbour?
       if (cur_el.adjcents_[i] != nullptr) {
         for (auto j = 0; j < 4; ++j)
-          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el)) {
+          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el) &&
+              isSameEdge(cur_el, i, *(cur_el.adjcents_[i]), j)) {
             refNeighbours[i] = j;
             break;
           }
@@ -651,10 +665,14 @@ class ElementTree {
           ptIds[i] = ref_cur_neighbour.sons_[refNeighbours[i]]
                          .vertices_[(refNeighbours[i] + 1) % 4];
           // these are the two elements adjacent to the edge
-          elements.push_back(
-              std::addressof(ref_cur_neighbour.sons_[refNeighbours[i]]));
-          elements.push_back(std::addressof(
-              ref_cur_neighbour.sons_[(refNeighbours[i] + 1) % 4]));
+          // (an element may touch several edges but must be listed only once)
+          for (auto j = 0; j < 2; ++j) {
+            ElementTreeNode *son = std::addressof(
+                ref_cur_neighbour.sons_[(refNeighbours[i] + j) % 4]);
+            if (std::find(elements.begin(), elements.end(), son) ==
+                elements.end())
+              elements.push_back(son);
+          }
         } else {
           // otherwise add the point id to the tree
           ptIds[i] = number_of_points_;
-- 
2.43.0


From 5666f8ef62fee702fe1e913288ff6ec4b8da2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 3/7] fix: projector drops extraction coefficients of high
 order B-splines

The coefficients of smooth B-splines with respect to the Bernstein basis get
as small as (1/P!)^2, i.e. below the filter tolerance 1e-4 for P >= 5, such
that the ansatz functions were neither smooth nor a partition of unity. The
noise of the interpolation problem is below 1e-8 up to P = 11. Beyond that,
the number of filtered entries of the two components may differ, which is not
an error.
---
 Bembel/src/AnsatzSpace/Projector.hpp | 1 -
 Bembel/src/util/Constants.hpp        | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Projector.hpp b/Bembel/src/AnsatzSpace/Projector.hpp
index 666cff1..62b8128 100644
--- a/Bembel/src/AnsatzSpace/Projector.hpp
+++ b/Bembel/src/AnsatzSpace/Projector.hpp
@@ -384,7 +384,6 @@ struct projector_matrixmaker_<Derived, DifferentialForm::DivConforming> {
         super_space.get_polynomial_degree() + 1, knotrepetition);
     const int size1 = info1.vals.size();
     const int size2 = info2.vals.size();
-    assert(size1 == size2);
     std::vector<Eigen::Triplet<double>> trips;
     for (int k = 0; k < size1; ++k) {
       trips.push_back(
diff --git a/Bembel/src/util/Constants.hpp b/Bembel/src/util/Constants.hpp
index 8ff6a66..9f5dbda 100644
--- a/Bembel/src/util/Constants.hpp
+++ b/Bembel/src/util/Constants.hpp
@@ -34,7 +34,7 @@ constexpr size_t Bembel_alloc_size = 100;
 // the interpolation problem solved during the assembly of the projector needs
 // to filter some almost-zero coefficients that might be introduced during the
 // solution of the linear system
-constexpr double projector_tolerance = 1e-4;
+constexpr double projector_tolerance = 1e-8;
 ////////////////////////////////////////////////////////////////////////////////
 /// methods
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 49b5dd26bf03a393a7e4c95301b9adaba03a2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:53 +0000
Subject: [PATCH 4/7] fix: clean up of empty dof identifications in the glue

Erasing while advancing the iterator skipped the identification following an
empty one, such that adjacent empty identifications were left behind and
dereferenced afterwards.
---
 Bembel/src/AnsatzSpace/Glue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Glue.hpp b/Bembel/src/AnsatzSpace/Glue.hpp
index a1c0d7a..0187fac 100644
--- a/Bembel/src/AnsatzSpace/Glue.hpp
+++ b/Bembel/src/AnsatzSpace/Glue.hpp
@@ -482,9 +482,11 @@ struct glue_identificationmaker_<Derived, DifferentialForm::Continuous> {
     }
     // Now we need to clean up the empty dofsets, since subsequent routines
     // assume there to be at least one element.
-    for (auto x = out.begin(); x != out.end(); ++x) {
+    for (auto x = out.begin(); x != out.end();) {
       if ((*x).dofs.size() == 0) {
-        out.erase(x);
+        x = out.erase(x);
+      } else {
+        ++x;
       }
     }
     return out;
-- 
2.43.0


From 018cfb2ef8937d088f437acaa65b743efa3852fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 5/7] fix: assignment of FunctionEvaluator lost the element
 reordering

---
 Bembel/src/AnsatzSpace/FunctionEvaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
index 9f6f731..551bfca 100644
--- a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
+++ b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
@@ -27,6 +27,7 @@ class FunctionEvaluator {
   FunctionEvaluator(const FunctionEvaluator &other) = default;
   FunctionEvaluator(FunctionEvaluator &&other) = default;
   FunctionEvaluator &operator=(FunctionEvaluator other) {
+    reordering_vector_ = other.reordering_vector_;
     ansatz_space_ = other.ansatz_space_;
     fun_ = other.fun_;
     polynomial_degree_plus_one_squared_ =
-- 
2.43.0


From db78eb02dff5fdf9a3cf78febfd5f1ad110de459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 6/7] fix: complex conjugation in the tangential trace of
 complex functions

---
 Bembel/src/LinearForm/TangentialTrace.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Bembel/src/LinearForm/TangentialTrace.hpp b/Bembel/src/LinearForm/TangentialTrace.hpp
index fc79f9e..474dd8d 100644
--- a/Bembel/src/LinearForm/TangentialTrace.hpp
+++ b/Bembel/src/LinearForm/TangentialTrace.hpp
@@ -59,11 +59,11 @@ class TangentialTrace : public LinearFormBase<TangentialTrace<Scalar>, Scalar> {
 
     // tangential component + quadrature weights
     Eigen::Matrix<Scalar, 3, 1> fun_x_f = function_(x_f);
-    Eigen::Matrix<Scalar, 3, 1> tangential_component = fun_x_f.cross(x_n) * ws;
 
-    // extract tangential component
-    Scalar component_x = x_f_dx.dot(tangential_component);
-    Scalar component_y = x_f_dy.dot(tangential_component);
+    // extract tangential component, x_f_dx.(fun x n) = (n x x_f_dx).fun, which
+    // avoids the complex conjugation of cross() applied to complex vectors
+    Scalar component_x = x_n.cross(x_f_dx).dot(fun_x_f) * ws;
+    Scalar component_y = x_n.cross(x_f_dy).dot(fun_x_f) * ws;
 
     // evaluate shape functions
     Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> phiPhiVec =
-- 
2.43.0


From a8afdbd3cbbf1fe772a1107b5ae20a20d2826b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 7/7] fix: stopwatch total includes the time since the last
 lap, stopped watch can be restarted

---
 Bembel/src/IO/Stopwatch.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Bembel/src/IO/Stopwatch.hpp b/Bembel/src/IO/Stopwatch.hpp
index 1095be9..b211169 100644
--- a/Bembel/src/IO/Stopwatch.hpp
+++ b/Bembel/src/IO/Stopwatch.hpp
@@ -65,12 +65,10 @@ class Stopwatch {
                      std::chrono::high_resolution_clock::now() - p_)
                      .count();
     assert(has_been_started_ == true && "Stopwatch must be started first!");
-    if (has_lapped_) {
-      has_lapped_ = false;
-      has_been_started_ = false;
-      return std::accumulate(durations_.begin(), durations_.end(), 0.0);
-    }
-    return out;
+    has_lapped_ = false;
+    has_been_started_ = false;
+    // time since the last lap (or start) plus all laps
+    return std::accumulate(durations_.begin(), durations_.end(), out);
   }
   inline std::vector<double> get_data() { return durations_; }
 };
-- 
2.43.0

