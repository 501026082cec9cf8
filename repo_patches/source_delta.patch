From 5c0ebd9aecd240f1ba2fc6b49a0e64dadc78f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 01/46] fix: keep block indices of vector views in sync with
 their blocks

A view created from a DynamicBlockVector reported size 0, hence wrong
global access, mean value and locally owned elements.
---
 include/pf-applications/lac/dynamic_block_vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pf-applications/lac/dynamic_block_vector.h b/include/pf-applications/lac/dynamic_block_vector.h
index e84f10d..23a49bc 100644
--- a/include/pf-applications/lac/dynamic_block_vector.h
+++ b/include/pf-applications/lac/dynamic_block_vector.h
@@ -185,6 +185,8 @@ namespace dealii
             const_cast<DynamicBlockVector<T> *>(view.get())
               ->blocks.push_back(blocks[i]);
 
+          const_cast<DynamicBlockVector<T> *>(view.get())->collect_sizes();
+
           return view;
         }
 
@@ -199,6 +201,8 @@ namespace dealii
           for (unsigned int i = start; i < end; ++i)
             view->blocks.push_back(blocks[i]);
 
+          view->collect_sizes();
+
           return view;
         }
 
-- 
2.43.0


From 9a9a2974b4ccb0aed60a4854b3b84e42145ab323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 02/46] fix: update block indices when a block of a vector is
 moved

With blocks of different sizes, global access after move_block() used the
layout before the move and ran out of bounds.
---
 include/pf-applications/lac/dynamic_block_vector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pf-applications/lac/dynamic_block_vector.h b/include/pf-applications/lac/dynamic_block_vector.h
index 23a49bc..6401c5d 100644
--- a/include/pf-applications/lac/dynamic_block_vector.h
+++ b/include/pf-applications/lac/dynamic_block_vector.h
@@ -260,6 +260,8 @@ namespace dealii
               blocks[i] = blocks[i + 1];
 
           blocks[to] = tmp;
+
+          collect_sizes();
         }
 
         void
-- 
2.43.0


From 572147d874de93cee4db1e53bc3aa98a11f5d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 03/46] fix: initialise the flag for stationary equations in
 explicit time marching

---
 include/pf-applications/time_integration/time_marching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/time_integration/time_marching.h b/include/pf-applications/time_integration/time_marching.h
index 58a3722..2079387 100644
--- a/include/pf-applications/time_integration/time_marching.h
+++ b/include/pf-applications/time_integration/time_marching.h
@@ -819,7 +819,7 @@ namespace TimeIntegration
     VectorType vec_p;
     VectorType increment;
 
-    bool has_stationary_equations;
+    bool has_stationary_equations = false;
   };
 
 #ifdef DEAL_II_WITH_SUNDIALS
-- 
2.43.0


From 1c3b354f7ca351b25261f8580a3eee8699efd970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 04/46] fix: store the principal axes of an ellipsoid in the
 archive

---
 include/pf-applications/grain_tracker/ellipsoid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 3ea3c0a..8d326f2 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -202,6 +202,7 @@ namespace GrainTracker
       ar &radii;
       ar &r_min;
       ar &r_max;
+      ar &axes;
       ar &center;
     }
 
-- 
2.43.0


From 763f40ab5132940dcfe084f0ee901e4be6dc8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 05/46] fix: radii and axes of an ellipsoid given by its
 quadratic form

---
 .../pf-applications/grain_tracker/ellipsoid.h | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 8d326f2..6890efb 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -132,10 +132,22 @@ namespace GrainTracker
       mtrA.copy_from(A);
       b.unroll(vecB.data(), vecB.data() + dim);
 
+      // Invert A to compute the ellipsoid center
+      mtrA_inv.invert(mtrA);
+
+      Vector<Number> vecC(dim);
+      mtrA_inv.vmult(vecC, vecB);
+
+      std::transform(vecC.begin(),
+                     vecC.end(),
+                     hpsint::begin(center),
+                     [](Number v) { return -v; });
+
       // Compute the eigenvalues and eigenvectors of A to get the radii and
-      // principal axes
-      SymmetricTensor<2, dim, Number> Am(A);
-      Am *= 1. / (2 * alpha_in);
+      // principal axes. The quadratic form is written with respect to the
+      // center c as 1/2 * (x-c)^T A (x-c) = 1/2 * c^T A c - alpha.
+      SymmetricTensor<2, dim, Number> Am(A_in);
+      Am *= 1. / ((A * center) * center - 2 * alpha_in);
       auto evals_and_vectors = eigenvectors(Am);
 
       // Ensure the eigenvalues are in the ascending order so the radii later
@@ -161,17 +173,6 @@ namespace GrainTracker
 
       r_min = *std::min_element(radii.cbegin(), radii.cend());
       r_max = *std::max_element(radii.cbegin(), radii.cend());
-
-      // Invert A to compute the ellipsoid center
-      mtrA_inv.invert(mtrA);
-
-      Vector<Number> vecC(dim);
-      mtrA_inv.vmult(vecC, vecB);
-
-      std::transform(vecC.begin(),
-                     vecC.end(),
-                     hpsint::begin(center),
-                     [](Number v) { return -v; });
     }
 
     Ellipsoid(const Ellipsoid &el, const double scale)
-- 
2.43.0


From 430c026dcda8caa9de252b3c1d8d3b2bc5975ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 06/46] fix: compare candidates of all segments when inheriting
 grain ids

---
 .../pf-applications/grain_tracker/tracking.h  | 72 ++++++++-----------
 1 file changed, 29 insertions(+), 43 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracking.h b/include/pf-applications/grain_tracker/tracking.h
index 7bc200f..d1128d8 100644
--- a/include/pf-applications/grain_tracker/tracking.h
+++ b/include/pf-applications/grain_tracker/tracking.h
@@ -123,51 +123,37 @@ namespace GrainTracker
                 std::vector<typename ContainerType::size_type> result;
                 tree.query(bgi::intersects(box), std::back_inserter(result));
 
-                // If any of the grain was identified, then there is no need to
-                // check for the others, so we break the iteration
-                if (!result.empty())
+                // Perform manual sorting among the candidates, since
+                // bgi::nearest() outputs the closest to the face of the
+                // box, not the box having the closest center. Note that the
+                // distance is always computed, even if there is a single
+                // candidate only: a new grain may have multiple segments and
+                // then the candidates of all of them have to be compared.
+                for (const auto &id : result)
                   {
-                    // Perform manual sorting among the candidates, since
-                    // bgi::nearest() outputs the closest to the face of the
-                    // box, not the box having the closest center. Note that we
-                    // also compute distances if old_grain_id has been set -
-                    // this may happen for the situation when a new grain has
-                    // multiple segments.
-                    if (result.size() > 1 ||
-                        old_grain_id != numbers::invalid_unsigned_int)
+                    const unsigned int candidate_grain_id =
+                      old_segments_to_grains[id];
+
+                    // Compute the segment id
+                    unsigned int work_id = id;
+                    for (; work_id > 0 && old_segments_to_grains[work_id - 1] ==
+                                            old_segments_to_grains[work_id];
+                         --work_id)
+                      ;
+                    const unsigned int segment_id = id - work_id;
+
+                    const auto &candidate_segment =
+                      old_grains.at(candidate_grain_id)
+                        .get_segments()[segment_id];
+
+                    const auto curent_dist =
+                      candidate_segment.get_center().distance(
+                        new_segment.get_center());
+
+                    if (curent_dist < min_dist)
                       {
-                        for (const auto &id : result)
-                          {
-                            const unsigned int candidate_grain_id =
-                              old_segments_to_grains[id];
-
-                            // Compute the segment id
-                            unsigned int work_id = id;
-                            for (; work_id > 0 &&
-                                   old_segments_to_grains[work_id - 1] ==
-                                     old_segments_to_grains[work_id];
-                                 --work_id)
-                              ;
-                            const unsigned int segment_id = id - work_id;
-
-                            const auto &candidate_segment =
-                              old_grains.at(candidate_grain_id)
-                                .get_segments()[segment_id];
-
-                            const auto curent_dist =
-                              candidate_segment.get_center().distance(
-                                new_segment.get_center());
-
-                            if (curent_dist < min_dist)
-                              {
-                                old_grain_id = candidate_grain_id;
-                                min_dist     = curent_dist;
-                              }
-                          }
-                      }
-                    else
-                      {
-                        old_grain_id = old_segments_to_grains[result[0]];
+                        old_grain_id = candidate_grain_id;
+                        min_dist     = curent_dist;
                       }
                   }
               }
-- 
2.43.0


From 24f58d9c3bd97023721c93e936dc03c27b31c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 07/46] fix: keep the maximum over all local pieces of a
 particle

---
 .../pf-applications/grain_tracker/distributed_stitching.h    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 88c6108..50d8806 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -244,7 +244,10 @@ namespace GrainTracker
 
           AssertIndexRange(unique_id, n_particles);
 
-          particle_max_values[unique_id] = local_particle_max_values[local_id];
+          // Multiple local pieces may belong to the same particle
+          particle_max_values[unique_id] =
+            std::max(particle_max_values[unique_id],
+                     local_particle_max_values[local_id]);
         }
 
     // Reduce information - particles max values
-- 
2.43.0


From fcf6b3a9cb6020f6d4c49f3b86c0b5b0f7b887d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 08/46] fix: zero distance of concentric ellipsoids

---
 include/pf-applications/grain_tracker/ellipsoid.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 6890efb..ada9482 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -434,8 +434,10 @@ namespace GrainTracker
     const auto eps_d = std::sqrt(2 * tol / (E1.get_r_max() + E2.get_r_max()));
 
     const auto c2c1_init = c2 - c1;
-    AssertThrow(c2c1_init.norm() > tol,
-                ExcMessage("Ellipses centers coincide"));
+
+    // Concentric ellipsoids always overlap, there is no direction to follow
+    if (c2c1_init.norm() == 0)
+      return {0, 0, true};
 
     Number       dist          = c2c1_init.norm();
     unsigned int iter          = 0;
-- 
2.43.0


From 7934a69fefbc6696370ef9cdf13cceaace1e1390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 09/46] fix: reassignment of order parameters without any
 grains

---
 include/pf-applications/grain_tracker/tracker.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index ef85d8b..2eebc28 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1571,6 +1571,13 @@ namespace GrainTracker
 
       bool grains_reassigned = false;
 
+      // Nothing to reassign, e.g. all grains have disappeared
+      if (grains.empty())
+        {
+          active_order_parameters.clear();
+          return std::make_tuple(0u, grains_reassigned);
+        }
+
       std::vector<std::string> log;
 
       // DSP for colorization if order parameters are compressed
-- 
2.43.0


From 8da31b403a516423686cc4de1b4b89e417437e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 10/46] fix: derivative of the bulk interpolation in the
 tensorial mobility

---
 .../sintering/include/pf-applications/sintering/mobility.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/mobility.h b/applications/sintering/include/pf-applications/sintering/mobility.h
index b97a278..3743d6c 100644
--- a/applications/sintering/include/pf-applications/sintering/mobility.h
+++ b/applications/sintering/include/pf-applications/sintering/mobility.h
@@ -676,7 +676,7 @@ namespace Sintering
       (void)etas_grad;
 
       const auto c2_1minusc2 = 4.0 * c * c * (1. - c) * (1. - c);
-      const auto dphidc      = 30.0 * c2_1minusc2;
+      const auto dphidc      = 7.5 * c2_1minusc2; // 30 c^2 (1-c)^2
 
       // Volumetric and vaporization parts, the same as for isotropic
       auto dMdc = diagonal_matrix<dim>((Mvol - Mvap) * dphidc);
@@ -851,7 +851,7 @@ namespace Sintering
       {
         const auto c2_1minusc2 = 4.0 * lin_c_value * lin_c_value *
                                  (1. - lin_c_value) * (1. - lin_c_value);
-        const auto dphidc = 30.0 * c2_1minusc2;
+        const auto dphidc = 7.5 * c2_1minusc2; // 30 c^2 (1-c)^2
 
         // Volumetric and vaporization parts, the same as for isotropic
         const auto f_vol_vap = (Mvol - Mvap) * dphidc;
-- 
2.43.0


From e26fcb63c976eee86f8db3b34894cc15a6b28075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 11/46] fix: scaling of the surface projector in the tensorial
 mobility tangent

---
 .../sintering/include/pf-applications/sintering/mobility.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/mobility.h b/applications/sintering/include/pf-applications/sintering/mobility.h
index 3743d6c..90f57eb 100644
--- a/applications/sintering/include/pf-applications/sintering/mobility.h
+++ b/applications/sintering/include/pf-applications/sintering/mobility.h
@@ -843,8 +843,8 @@ namespace Sintering
         const auto fsurf = Msurf * 4.0 * (lin_c_value * lin_c_value) *
                            ((1. - lin_c_value) * (1. - lin_c_value));
 
-        out =
-          (f_vol_vap + fsurf) * mu_gradient - nc * (fsurf * (nc * mu_gradient));
+        out = (f_vol_vap + fsurf * projector_scale) * mu_gradient -
+              nc * (fsurf * (nc * mu_gradient));
       }
 
       // 2) for dM_dc
-- 
2.43.0


From d637c2e9682e09c313db2de92cfc16527083a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 12/46] fix: piecewise function with a single pair and linear
 extrapolation

---
 include/pf-applications/numerics/functions.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pf-applications/numerics/functions.h b/include/pf-applications/numerics/functions.h
index 15083df..600e745 100644
--- a/include/pf-applications/numerics/functions.h
+++ b/include/pf-applications/numerics/functions.h
@@ -72,6 +72,10 @@ public:
       {
         return 0.;
       }
+    else if (pairs.size() == 1)
+      {
+        return pairs.front().second;
+      }
     else
       {
         auto it = std::lower_bound(pairs.begin(),
-- 
2.43.0


From 6021cf73856393c46edce49dc98dc8b37d3b2acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 13/46] fix: initialize the cut-off table over lanes, not over
 grains

---
 .../include/pf-applications/sintering/operator_sintering_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 706e801..df2fd6e 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -166,7 +166,7 @@ namespace Sintering
       table_lanes.reinit({n_cells, VectorizedArrayType::size()});
 
       for (unsigned int i = 0; i < n_cells; ++i)
-        for (unsigned int j = 0; j < n_grains(); ++j)
+        for (unsigned int j = 0; j < VectorizedArrayType::size(); ++j)
           table_lanes[i][j] = numbers::invalid_unsigned_int;
 
       component_table.reinit({n_cells, n_grains()});
-- 
2.43.0


From 6d1106b3a0a4c74f4cbbde49e50cb4cafe15d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 14/46] fix: apply the cut-off mask to order parameters only

---
 .../pf-applications/sintering/operator_sintering_data.h        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index df2fd6e..55d4135 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -354,7 +354,8 @@ namespace Sintering
                   auto gradient = phi.get_gradient(q);
 
                   if ((component_table.size(0) > 0) &&
-                      (c >= op_components_offset))
+                      (c >= op_components_offset) &&
+                      (c < op_components_offset + n_grains()))
                     if (component_table[cell][c - op_components_offset] ==
                         false)
                       {
-- 
2.43.0


From fb110a73d9225a554110664c87774cd3cc7b5c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 15/46] fix: do not accumulate the grain centers over cells

---
 .../include/pf-applications/sintering/operator_advection.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_advection.h b/applications/sintering/include/pf-applications/sintering/operator_advection.h
index 755e3cb..1cdad13 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_advection.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_advection.h
@@ -353,7 +353,7 @@ namespace Sintering
                         grain_and_segment.first, grain_and_segment.second);
 
                       for (unsigned int d = 0; d < dim; ++d)
-                        advection_mechanism.grain_center(segment_index)[d] +=
+                        advection_mechanism.grain_center(segment_index)[d] =
                           rc_i[d];
 
                       for (unsigned int d = 0;
-- 
2.43.0


From 58d052ec4bdbb47cf3764436d0e067aeb70668a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 16/46] fix: correct the sign of the 2D cross product

---
 include/pf-applications/base/tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/base/tensor.h b/include/pf-applications/base/tensor.h
index 1a3778b..413d21e 100644
--- a/include/pf-applications/base/tensor.h
+++ b/include/pf-applications/base/tensor.h
@@ -62,7 +62,7 @@ namespace hpsint
   DEAL_II_ALWAYS_INLINE inline moment_t<2, Number>
   cross_product(const Tensor<1, 2, Number> &a, const Tensor<1, 2, Number> &b)
   {
-    return a[1] * b[0] - a[0] * b[1];
+    return a[0] * b[1] - a[1] * b[0];
   }
 
   template <int dim, typename Number>
-- 
2.43.0


From bd65664a10d615eecabe5baa99fdef080fb2f47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 17/46] fix: convert the order parameter index only once for
 the velocity

---
 .../sintering/include/pf-applications/sintering/advection.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/advection.h b/applications/sintering/include/pf-applications/sintering/advection.h
index b6492d1..4a6631b 100644
--- a/applications/sintering/include/pf-applications/sintering/advection.h
+++ b/applications/sintering/include/pf-applications/sintering/advection.h
@@ -248,13 +248,11 @@ namespace Sintering
     get_velocity(const unsigned int                     order_parameter_id,
                  const Point<dim, VectorizedArrayType> &r) const
     {
-      const auto relevant_id = get_relevant_id(order_parameter_id);
-
       // Translational velocity
-      const auto vt = get_translation_velocity(relevant_id);
+      const auto vt = get_translation_velocity(order_parameter_id);
 
       // Rotational velocity
-      const auto vr = get_rotation_velocity(relevant_id, r);
+      const auto vr = get_rotation_velocity(order_parameter_id, r);
 
       // Total advection velocity
       const auto v_adv = vt + vr;
-- 
2.43.0


From 78761fd039164eab908014a6fdf75b5ae42508f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 18/46] fix: use global grain indices for the advection
 velocity with cut-off

---
 .../sintering/operator_sintering_data.h             | 12 ++++++++++++
 .../sintering/operator_sintering_generic.h          | 13 +++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 55d4135..86c255c 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -472,6 +472,18 @@ namespace Sintering
       return result;
     }
 
+    // Global index of the grain which is processed as the i-th out of n_grains
+    // by a cell kernel
+    unsigned int
+    get_grain_index(const unsigned int cell,
+                    const unsigned int n_grains,
+                    const unsigned int i) const
+    {
+      return (cut_off_enabled() && n_grains != this->n_grains()) ?
+               get_relevant_grains(cell)[i] :
+               i;
+    }
+
     bool
     cut_off_enabled() const
     {
diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
index 9bef720..428bac2 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
@@ -47,6 +47,7 @@ namespace Sintering
       const AdvectionMechanism<dim, Number, VectorizedArrayType> &advection,
       Tensor<1, n_comp, VectorizedArrayType> *gradient_buffer)
       : phi(phi)
+      , data(data)
       , cell(phi.get_current_cell_index())
       , lin_value(data.get_nonlinear_values(cell))
       , lin_gradient(data.get_nonlinear_gradients(cell))
@@ -167,10 +168,11 @@ namespace Sintering
       // 4) add advection contributations -> influences c AND etas
       if (!advection_data.empty())
         for (unsigned int ig = 0; ig < n_grains; ++ig)
-          if (advection_data.has_velocity(ig))
+          if (const auto grain = data.get_grain_index(cell, n_grains, ig);
+              advection_data.has_velocity(grain))
             {
               const auto &velocity_ig =
-                advection_data.get_velocity(ig, phi.quadrature_point(q));
+                advection_data.get_velocity(grain, phi.quadrature_point(q));
 
               gradient_result[0] -= velocity_ig * value[0];
               gradient_result[2 + ig] -= velocity_ig * value[2 + ig];
@@ -191,6 +193,7 @@ namespace Sintering
 
   private:
     const FECellIntegratorType                                &phi;
+    const SinteringOperatorData<dim, VectorizedArrayType>     &data;
     const unsigned int                                         cell;
     const VectorizedArrayType mutable                         *lin_value;
     const dealii::Tensor<1, dim, VectorizedArrayType> mutable *lin_gradient;
@@ -907,10 +910,12 @@ namespace Sintering
           // 4) add advection contributations -> influences c AND etas
           if (this->advection.enabled())
             for (unsigned int ig = 0; ig < n_grains; ++ig)
-              if (advection_data.has_velocity(ig))
+              if (const auto grain =
+                    this->data.get_grain_index(cell, n_grains, ig);
+                  advection_data.has_velocity(grain))
                 {
                   const auto &velocity_ig =
-                    advection_data.get_velocity(ig, phi.quadrature_point(q));
+                    advection_data.get_velocity(grain, phi.quadrature_point(q));
 
                   gradient_result[0] -= velocity_ig * value[0];
                   gradient_result[2 + ig] -= velocity_ig * value[2 + ig];
-- 
2.43.0


From fed177f59fce22006305ac73b1f9e4e9ac3a6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 19/46] fix: access the linearization data of the tangent with
 the matching layout

---
 .../sintering/operator_sintering_data.h       | 39 +++++++++++++++++++
 .../sintering/operator_sintering_generic.h    | 13 +++----
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 86c255c..394a2c7 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -97,6 +97,38 @@ namespace Sintering
         return &nonlinear_gradients_new[gradient_ptr[cell]];
     }
 
+    // Access to the data of a cell kernel working with n_grains grains: either
+    // the compressed data (if the kernel treats relevant grains only) or the
+    // full one
+    const VectorizedArrayType *
+    get_nonlinear_values(const unsigned int cell,
+                         const unsigned int n_grains) const
+    {
+      return use_compressed_data(cell, n_grains) ?
+               get_nonlinear_values(cell) :
+               &nonlinear_values[cell][0][0];
+    }
+
+    const dealii::Tensor<1, dim, VectorizedArrayType> *
+    get_nonlinear_gradients(const unsigned int cell,
+                            const unsigned int n_grains) const
+    {
+      return use_compressed_data(cell, n_grains) ?
+               get_nonlinear_gradients(cell) :
+               &nonlinear_gradients[cell][0][0];
+    }
+
+    // Number of gradients stored per quadrature point
+    unsigned int
+    n_nonlinear_gradients(const unsigned int cell,
+                          const unsigned int n_grains) const
+    {
+      return use_compressed_data(cell, n_grains) ?
+               (gradient_ptr[cell + 1] - gradient_ptr[cell]) /
+                 nonlinear_gradients.size(1) :
+               nonlinear_gradients.size(2);
+    }
+
     Table<2, bool> &
     get_component_table() const
     {
@@ -491,6 +523,13 @@ namespace Sintering
     }
 
   private:
+    bool
+    use_compressed_data(const unsigned int cell,
+                        const unsigned int n_grains) const
+    {
+      return cut_off_enabled() && get_relevant_grains(cell).size() == n_grains;
+    }
+
     MobilityType mobility;
 
     const unsigned int op_components_offset;
diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
index 428bac2..c24db0f 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
@@ -49,8 +49,9 @@ namespace Sintering
       : phi(phi)
       , data(data)
       , cell(phi.get_current_cell_index())
-      , lin_value(data.get_nonlinear_values(cell))
-      , lin_gradient(data.get_nonlinear_gradients(cell))
+      , lin_value(data.get_nonlinear_values(cell, n_comp - 2))
+      , lin_gradient(data.get_nonlinear_gradients(cell, n_comp - 2))
+      , lin_gradient_stride(data.n_nonlinear_gradients(cell, n_comp - 2))
       , free_energy(free_energy)
       , mobility(data.get_mobility())
       , kappa_c(data.kappa_c)
@@ -181,12 +182,7 @@ namespace Sintering
 
 
       lin_value += 2 + n_grains;
-      lin_gradient +=
-        2 +
-        (SinteringOperatorData<dim,
-                               VectorizedArrayType>::use_tensorial_mobility ?
-           n_grains :
-           0);
+      lin_gradient += lin_gradient_stride;
 
       return {value_result, gradient_result};
     }
@@ -197,6 +193,7 @@ namespace Sintering
     const unsigned int                                         cell;
     const VectorizedArrayType mutable                         *lin_value;
     const dealii::Tensor<1, dim, VectorizedArrayType> mutable *lin_gradient;
+    const unsigned int                                lin_gradient_stride;
     const FreeEnergy<VectorizedArrayType>                     &free_energy;
     const typename SinteringOperatorData<dim, VectorizedArrayType>::MobilityType
                 &mobility;
-- 
2.43.0


From 48e509dd8498196e1fb18fedfe02685f1ecd5c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:12 +0000
Subject: [PATCH 20/46] fix: keep the cell indices of the weighted advection
 operator

---
 .../sintering/operator_advection.h            | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_advection.h b/applications/sintering/include/pf-applications/sintering/operator_advection.h
index 1cdad13..a91c114 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_advection.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_advection.h
@@ -478,7 +478,6 @@ namespace Sintering
                     MPI_COMM_WORLD);
 
       // Compute forces and communicate them to the regular advection
-      advection_mechanism.nullify_data(grain_tracker.n_segments());
       for (unsigned int i = 0; i < n_segments; ++i)
         {
           const auto it =
@@ -555,7 +554,14 @@ namespace Sintering
       std::vector<unsigned int> &index_values =
         advection_mechanism.get_index_values();
 
-      auto init_segments = [&, this](const auto cell, const unsigned int ig) {
+      auto init_segments = [&, this](const auto         cell,
+                                     const unsigned int ig,
+                                     const bool         store_indices) {
+        const auto store_index = [&](const unsigned int index) {
+          if (store_indices)
+            index_values.push_back(index);
+        };
+
         std::vector<std::pair<unsigned int, unsigned int>> segments(
           matrix_free.n_active_entries_per_cell_batch(cell));
 
@@ -580,9 +586,8 @@ namespace Sintering
                   {
                     segments[i] = grain_and_segment;
 
-                    index_values.push_back(
-                      grain_tracker.get_grain_segment_index(
-                        grain_and_segment.first, grain_and_segment.second));
+                    store_index(grain_tracker.get_grain_segment_index(
+                      grain_and_segment.first, grain_and_segment.second));
                   }
                 else
                   {
@@ -599,12 +604,12 @@ namespace Sintering
                 segments[i] = std::make_pair(numbers::invalid_unsigned_int,
                                              numbers::invalid_unsigned_int);
 
-                index_values.push_back(numbers::invalid_unsigned_int);
+                store_index(numbers::invalid_unsigned_int);
               }
           }
 
         for (; i < VectorizedArrayType::size(); ++i)
-          index_values.push_back(numbers::invalid_unsigned_int);
+          store_index(numbers::invalid_unsigned_int);
 
         return segments;
       };
@@ -629,7 +634,7 @@ namespace Sintering
                   static_cast<unsigned char>(255))
                 continue;
 
-              const auto segments_i = init_segments(cell, ig);
+              const auto segments_i = init_segments(cell, ig, true);
 
               // Deal with volume only first
               for (unsigned int q = 0; q < phi_sint.n_q_points; ++q)
@@ -673,7 +678,7 @@ namespace Sintering
                       static_cast<unsigned char>(255))
                     continue;
 
-                  const auto segments_j = init_segments(cell, jg);
+                  const auto segments_j = init_segments(cell, jg, false);
 
                   for (unsigned int q = 0; q < phi_sint.n_q_points; ++q)
                     {
-- 
2.43.0


From 38900971bc04ae6087ee1d9cb232479e13124d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 21/46] fix: cut-off statistics on processes without cells

---
 .../pf-applications/sintering/operator_sintering_data.h       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
index 394a2c7..091f80f 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_data.h
@@ -280,7 +280,9 @@ namespace Sintering
       const auto print_stat = [&pcout,
                                &comm](std::vector<unsigned int> &counters) {
         unsigned int max_value =
-          *std::max_element(counters.begin(), counters.end());
+          counters.empty() ?
+            0 :
+            *std::max_element(counters.begin(), counters.end());
         max_value = Utilities::MPI::max(max_value, comm);
 
         std::vector<unsigned int> max_values(max_value + 1, 0);
-- 
2.43.0


From 8098dc0103d490ed8b9d894726763cdd1db02321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 22/46] fix: apply periodic constraints to the system matrix

---
 .../pf-applications/sintering/operator_base.h    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_base.h b/applications/sintering/include/pf-applications/sintering/operator_base.h
index 7da3b71..94f6983 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_base.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_base.h
@@ -443,8 +443,20 @@ namespace Sintering
           constraints_for_matrix.reinit(dof_handler.locally_owned_dofs(),
                                         DoFTools::extract_locally_relevant_dofs(
                                           dof_handler));
-          DoFTools::make_hanging_node_constraints(dof_handler,
-                                                  constraints_for_matrix);
+
+          // the constraints of the scalar problem (hanging nodes and
+          // periodicity) hold for each component
+          for (const auto &line : this->constraints.get_lines())
+            for (unsigned int b = 0; b < this->n_components(); ++b)
+              {
+                const auto index = line.index * this->n_components() + b;
+
+                constraints_for_matrix.add_line(index);
+                for (const auto &[column, weight] : line.entries)
+                  constraints_for_matrix.add_entry(
+                    index, column * this->n_components() + b, weight);
+              }
+
           add_matrix_constraints(dof_handler, constraints_for_matrix);
           constraints_for_matrix.close();
 
-- 
2.43.0


From 576d7d38a65f031dec8f0cc22e845de31d5007be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 23/46] fix: average and maximum approximations of the
 Allen-Cahn block

---
 .../include/pf-applications/sintering/preconditioners.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/preconditioners.h b/applications/sintering/include/pf-applications/sintering/preconditioners.h
index 4edbe46..5ab90a6 100644
--- a/applications/sintering/include/pf-applications/sintering/preconditioners.h
+++ b/applications/sintering/include/pf-applications/sintering/preconditioners.h
@@ -470,9 +470,9 @@ namespace Sintering
         return 0;
       if (label == "const")
         return 1;
-      if (label == "max")
-        return 2;
       if (label == "avg")
+        return 2;
+      if (label == "max")
         return 3;
 
       AssertThrow(false, ExcNotImplemented());
-- 
2.43.0


From 869941895f64fecc521a52de6ab7b91a569f1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 24/46] fix: advection of the order parameters in the
 Allen-Cahn block

---
 .../pf-applications/sintering/operator_sintering_generic.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
index c24db0f..95a8ce6 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_sintering_generic.h
@@ -843,7 +843,7 @@ namespace Sintering
             const auto &velocity_ig =
               advection_data.get_velocity(ig, phi.quadrature_point(q));
 
-            gradient_result[ig] -= velocity_ig * phi.get_value(q)[0];
+            gradient_result[ig] -= velocity_ig * phi.get_value(q)[ig];
           }
     }
 
-- 
2.43.0


From 685c035606b678f5515360b9b8421f4f02b055a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 25/46] fix: Allen-Cahn block matrices on processes without
 cells

---
 .../pf-applications/sintering/preconditioners.h      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/preconditioners.h b/applications/sintering/include/pf-applications/sintering/preconditioners.h
index 5ab90a6..2d7b92e 100644
--- a/applications/sintering/include/pf-applications/sintering/preconditioners.h
+++ b/applications/sintering/include/pf-applications/sintering/preconditioners.h
@@ -856,15 +856,21 @@ namespace Sintering
           }
       }
 
+      // the table is empty on processes without cells even if the cut-off is
+      // enabled
+      const bool cut_off_enabled =
+        Utilities::MPI::max(
+          this->data.get_component_table().size(0),
+          this->matrix_free.get_dof_handler(this->dof_index)
+            .get_mpi_communicator()) > 0;
+
       for (unsigned int b = 0; b < this->n_unique_components(); ++b)
         {
           auto &matrix = *this->block_system_matrix[b];
 
           matrix.compress(VectorOperation::add);
 
-          const auto &component_table = this->data.get_component_table();
-
-          if (free_energy_approximation == 0 && component_table.size(0) > 0)
+          if (free_energy_approximation == 0 && cut_off_enabled)
             {
               const auto range = matrix.local_range();
 
-- 
2.43.0


From 1183da834ee962bd9c3952b64dd4a41e1b9b89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 26/46] fix: uninitialized time derivatives in the grand
 potential tangent

---
 .../sintering/operator_grand_potential_greenquist.h             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index d58ec61..9f1c226 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -909,7 +909,7 @@ namespace Sintering
             lin_etas_gradient = &lin_gradient[2];
 
           // Evaluate some time derivatives
-          VectorizedArrayType dphi_dt, dmu_dt;
+          VectorizedArrayType dphi_dt(0.0), dmu_dt(0.0);
 
           TimeIntegration::compute_time_derivative(
             dphi_dt, lin_phi_value, time_eval, 0, q);
-- 
2.43.0


From a9661079ced83a11304abba1093ede46f78fcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 27/46] fix: matrix phase in the grand potential tangent

---
 .../sintering/operator_grand_potential_greenquist.h            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index 9f1c226..f253f6c 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -1001,7 +1001,8 @@ namespace Sintering
 
           value_result[1] -=
             (free_energy_eval.dhb() * free_energy_eval.d2omega_b_dmu2() +
-             free_energy_eval.dhm() * free_energy_eval.d2omega_b_dmu2()) *
+             free_energy_eval.dhm() *
+               free_energy_eval.d2omega_m_dmu2(lin_mu_value)) *
             value[1] * dphi_dt;
 
           for (unsigned int ig = 0; ig < n_grains; ++ig)
-- 
2.43.0


From 52ecece1a676af9b743d93103b3463e8d7e049bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 28/46] fix: gradient energy derivative in the grand potential
 tangent

---
 .../include/pf-applications/sintering/driver.h        |  2 +-
 .../sintering/operator_grand_potential_greenquist.h   | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 475cddd..b09da53 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2213,7 +2213,7 @@ namespace Sintering
                   sintering_data.set_component_mask(
                     matrix_free,
                     solution,
-                    params.advection_data.enable,
+                    save_op_gradients,
                     save_all_blocks,
                     params.grain_cut_off_tolerance);
 
diff --git a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
index f253f6c..ce5b0eb 100644
--- a/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
+++ b/applications/sintering/include/pf-applications/sintering/operator_grand_potential_greenquist.h
@@ -530,7 +530,8 @@ namespace Sintering
     };
 
   public:
-    static constexpr bool save_gradients = false;
+    // the gradients of the order parameters enter the tangent
+    static constexpr bool save_gradients = true;
 
     GreenquistFreeEnergy(double A, double B)
     {
@@ -1094,9 +1095,11 @@ namespace Sintering
                          lin_value[ig + 2], lin_value[jg + 2])) *
                     value[jg + 2];
 
-              gradient_result[ig + 2] = free_energy_eval.get_L() *
-                                        free_energy_eval.kappa() *
-                                        gradient[ig + 2];
+              gradient_result[ig + 2] =
+                free_energy_eval.get_L() * free_energy_eval.dkappa_dphi() *
+                  lin_gradient[ig + 2] * value[0] +
+                free_energy_eval.get_L() * free_energy_eval.kappa() *
+                  gradient[ig + 2];
             }
 
           phi.submit_value(value_result, q);
-- 
2.43.0


From 7bb65dcb5ba34bc1f770fed71e2821e1ebd5feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 29/46] fix: upper boundary of particle clouds at negative
 coordinates

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 49d5626..11d8360 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -71,7 +71,7 @@ namespace Sintering
       for (unsigned int i = 0; i < dim; i++)
         {
           boundaries.first[i]  = std::numeric_limits<double>::max();
-          boundaries.second[i] = std::numeric_limits<double>::min();
+          boundaries.second[i] = std::numeric_limits<double>::lowest();
         }
 
       for (const auto &p : particles)
-- 
2.43.0


From c312a5505d1b4ddd75952a3d04e6c6009b53885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 30/46] fix: contact orientation of particles on a line through
 the origin

---
 .../include/pf-applications/sintering/initial_values_cloud.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 11d8360..771abb7 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -359,7 +359,7 @@ namespace Sintering
 
       ez_temp /= ez_temp.norm();
 
-      if (std::abs(ex * ez_temp - 1) < tol)
+      if (std::abs(std::abs(ex * ez_temp) - 1) < tol)
         {
           return false;
         }
-- 
2.43.0


From bae7da85699c619cd4dfda6885e7eb5c53599db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 31/46] fix: neck of particles which overlap beyond the centre

---
 .../sintering/initial_values_cloud.h              | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
index 771abb7..c6dda5c 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_cloud.h
@@ -123,15 +123,12 @@ namespace Sintering
                   // an overlap
                   if (distance <= dist_max - 1e-3 * dist_max)
                     {
-                      // Compute the radius of the neck
-                      const double s = (r1 + r2 + distance) / 2;
-                      const double r0 =
-                        2 / distance *
-                        std::sqrt(s * (s - r1) * (s - r2) * (s - distance));
-
-                      // Distance from the center of particle 1 to the center of
-                      // the neck
-                      const double dm = std::sqrt(r1 * r1 - r0 * r0);
+                      // Signed distance from the center of particle 1 to the
+                      // center of the neck, it is negative if the neck lies
+                      // behind the center of particle 1
+                      const double dm =
+                        (distance * distance + r1 * r1 - r2 * r2) /
+                        (2 * distance);
 
                       // Compute unitary vector ey of the y-axis
                       dealii::Point<dim> ey;
-- 
2.43.0


From 488581a5dba5a0f1f09c1e604299c0c6eca0465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 32/46] fix: distance of points on the edges of a
 microstructure

---
 .../sintering/initial_values_microstructure.h               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h b/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
index 6c4faac..23a2567 100644
--- a/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
+++ b/applications/sintering/include/pf-applications/sintering/initial_values_microstructure.h
@@ -114,8 +114,10 @@ namespace Sintering
             else if (r > 1)
               dist = p2.distance(p);
             else
-              dist = std::sqrt(p.distance_square(p1) -
-                               r * r * p1.distance_square(p2));
+              dist =
+                std::sqrt(std::max(0.,
+                                   p.distance_square(p1) -
+                                     r * r * p1.distance_square(p2)));
 
             dist_min = std::min(dist, dist_min);
           }
-- 
2.43.0


From 82d09f6d547a170f404520bb97a17203becf8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 33/46] fix: restart data of grains with a wavefront
 representation

---
 include/pf-applications/grain_tracker/representation.h | 2 ++
 inst.cc                                                | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pf-applications/grain_tracker/representation.h b/include/pf-applications/grain_tracker/representation.h
index e864cc0..1db4215 100644
--- a/include/pf-applications/grain_tracker/representation.h
+++ b/include/pf-applications/grain_tracker/representation.h
@@ -20,7 +20,9 @@
 #include <pf-applications/base/debug.h>
 
 #include <boost/serialization/export.hpp>
+#include <boost/serialization/map.hpp>
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/utility.hpp>
 
 #include <pf-applications/grain_tracker/ellipsoid.h>
 
diff --git a/inst.cc b/inst.cc
index b2f8549..9ffa17e 100644
--- a/inst.cc
+++ b/inst.cc
@@ -64,3 +64,5 @@ BOOST_CLASS_EXPORT(GrainTracker::RepresentationSpherical<2>)
 BOOST_CLASS_EXPORT(GrainTracker::RepresentationSpherical<3>)
 BOOST_CLASS_EXPORT(GrainTracker::RepresentationElliptical<2>)
 BOOST_CLASS_EXPORT(GrainTracker::RepresentationElliptical<3>)
+BOOST_CLASS_EXPORT(GrainTracker::RepresentationWavefront<2>)
+BOOST_CLASS_EXPORT(GrainTracker::RepresentationWavefront<3>)
-- 
2.43.0


From 9990c03f8c36c61df585aab02d569c0dc451100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 34/46] fix: overlap of touching non-spherical grains without a
 buffer zone

---
 include/pf-applications/grain_tracker/grain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/grain.h b/include/pf-applications/grain_tracker/grain.h
index f98ab89..8545715 100644
--- a/include/pf-applications/grain_tracker/grain.h
+++ b/include/pf-applications/grain_tracker/grain.h
@@ -297,7 +297,7 @@ namespace GrainTracker
           if (has_non_trivial_segments(segments) ||
               has_non_trivial_segments(gr_other.get_segments()))
             // Minimum distance between the two grains
-            return (distance(gr_other) < buffer_distance_base +
+            return (distance(gr_other) <= buffer_distance_base +
                                            buffer_distance_other +
                                            buffer_distance_fixed);
           else
-- 
2.43.0


From 814ceeac1ece1296e3ad03ce87d854c6548877b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:50 +0000
Subject: [PATCH 35/46] fix: remap the previous solution when grains are
 tracked within a step

---
 .../pf-applications/sintering/driver.h        | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index b09da53..a8d0f1b 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -1513,8 +1513,12 @@ namespace Sintering
           pcout << std::endl;
         }
 
+      /* If the grain tracker is executed before the new solution has been
+       * commited, then the recent old solution still has to enter the history
+       * and, therefore, needs to be remapped too. */
       const auto run_grain_tracker = [&](const double t,
-                                         const bool   do_initialize = false) {
+                                         const bool   do_initialize = false,
+                                         const bool   keep_recent   = false) {
         ScopedName sc("run_grain_tracker");
         MyScope    scope(timer, sc);
 
@@ -1524,10 +1528,10 @@ namespace Sintering
 
         system_has_changed = true;
 
-        auto solutions_except_recent = solution_history.filter(true, false);
-        auto old_old_solutions       = solution_history.filter(false, false);
+        auto solutions_to_remap = solution_history.filter(true, keep_recent);
+        auto old_old_solutions  = solution_history.filter(false, false);
 
-        solutions_except_recent.update_ghost_values();
+        solutions_to_remap.update_ghost_values();
 
         output_result(solution,
                       nonlinear_operator,
@@ -1640,7 +1644,7 @@ namespace Sintering
 
                 // Perform remapping
                 auto all_solution_vectors =
-                  solutions_except_recent.get_all_solutions();
+                  solutions_to_remap.get_all_solutions();
 
                 if (has_reassigned_grains &&
                     n_components_new < n_components_old)
@@ -1661,7 +1665,7 @@ namespace Sintering
                   }
 
                 // Resize solution vector (delete or add blocks)
-                solutions_except_recent.apply(
+                solutions_to_remap.apply(
                   [&](auto &sol) { sol.reinit(n_components_new); });
 
                 if (has_reassigned_grains &&
@@ -1693,7 +1697,7 @@ namespace Sintering
 
                 // Perform remapping
                 auto all_solution_vectors =
-                  solutions_except_recent.get_all_solutions();
+                  solutions_to_remap.get_all_solutions();
 
                 n_grains_remapped = grain_tracker.remap(all_solution_vectors);
               }
@@ -2320,7 +2324,9 @@ namespace Sintering
                     // then we run the grain tracker now
                     if (params.grain_tracker_data.check_inconsistency)
                       {
-                        run_grain_tracker(t, /*do_initialize = */ false);
+                        run_grain_tracker(t,
+                                          /*do_initialize = */ false,
+                                          /*keep_recent = */ true);
                         n_timestep_last_gt = n_timestep_new;
 
                         // We rerun the grain tracker once again after AMR if
-- 
2.43.0


From c76fb9cdb8da5b0859cafd8360f00803a4cc3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 36/46] fix: save the size of the next time step in the restart
 data

---
 .../sintering/include/pf-applications/sintering/driver.h    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index a8d0f1b..1a2755d 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -2625,7 +2625,11 @@ namespace Sintering
                     // Save time data
                     std::ofstream out_stream_time(prefix + "_time");
                     boost::archive::binary_oarchive fos_time(out_stream_time);
-                    fos_time << sintering_data.time_data;
+
+                    // The size of the next step has been chosen already
+                    auto next_time_data = sintering_data.time_data;
+                    next_time_data.update_dt(dt);
+                    fos_time << next_time_data;
                   }
 
                 /* If the mesh quality control is enabled we then perform one of
-- 
2.43.0


From aa03b796552d759c58c1af5fd6ef3e18881c65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 37/46] fix: keep pending mesh refinement and grain tracking in
 the restart data

---
 .../include/pf-applications/sintering/driver.h         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 1a2755d..784b3fb 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -147,6 +147,8 @@ namespace Sintering
     unsigned int n_timestep;
     unsigned int n_timestep_last_amr;
     unsigned int n_timestep_last_gt;
+    bool         do_mesh_refinement;
+    bool         do_grain_tracker;
     unsigned int n_linear_iterations;
     unsigned int n_non_linear_iterations;
     unsigned int n_residual_evaluations;
@@ -188,6 +190,8 @@ namespace Sintering
       n_timestep                 = 0;
       n_timestep_last_amr        = 0;
       n_timestep_last_gt         = 0;
+      do_mesh_refinement         = false;
+      do_grain_tracker           = false;
       n_linear_iterations        = 0;
       n_non_linear_iterations    = 0;
       n_residual_evaluations     = 0;
@@ -486,6 +490,8 @@ namespace Sintering
       ar &n_timestep;
       ar &n_timestep_last_amr;
       ar &n_timestep_last_gt;
+      ar &do_mesh_refinement;
+      ar &do_grain_tracker;
       ar &n_linear_iterations;
       ar &n_non_linear_iterations;
       ar &n_residual_evaluations;
@@ -1925,9 +1931,7 @@ namespace Sintering
                         additional_output);
         }
 
-      bool has_converged      = true;
-      bool do_mesh_refinement = false;
-      bool do_grain_tracker   = false;
+      bool has_converged = true;
 
       const double tol_termination = 1e-9;
 
-- 
2.43.0


From e0d57fde1faf07781fbc177cac934ccfccebcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 38/46] fix: ghost values of the solution history after a
 restart

---
 .../sintering/include/pf-applications/sintering/driver.h       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 784b3fb..a7bf9fd 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -1839,6 +1839,9 @@ namespace Sintering
       initialize_solution(
         solution_history.filter(true, false, true).get_all_blocks_raw(), timer);
 
+      // The old solutions might have been restored from the restart data
+      solution_history.filter(false, false, true).update_ghost_values();
+
       // initial local refinement
       if (t == params.time_integration_data.time_start &&
           (params.adaptivity_data.refinement_frequency > 0 ||
-- 
2.43.0


From 85cb4525420762e1a67060d0e22b08b7c48b2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 39/46] fix: remap values at the boundaries between processes

---
 .../pf-applications/grain_tracker/tracker.h   | 46 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index 2eebc28..eb9f41d 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -460,7 +460,11 @@ namespace GrainTracker
       // Copy solutions
       std::vector<std::shared_ptr<BlockVectorType>> solutions_copy;
       for (const auto solution : solutions)
-        solutions_copy.push_back(std::make_shared<BlockVectorType>(*solution));
+        {
+          solution->update_ghost_values();
+          solutions_copy.push_back(std::make_shared<BlockVectorType>(*solution));
+          solutions_copy.back()->update_ghost_values();
+        }
 
       // Main remapping loop
       for (auto &cell : dof_handler.active_cell_iterators())
@@ -645,6 +649,46 @@ namespace GrainTracker
             }
         }
 
+      // The value of a DoF owned by this process may have been changed only at
+      // the cells of the other processes, these changes have to be taken over
+      if (Utilities::MPI::n_mpi_processes(dof_handler.get_mpi_communicator()) > 1)
+        for (unsigned int i = 0; i < solutions.size(); ++i)
+          for (unsigned int b = order_parameters_offset;
+               b < solutions[i]->n_blocks();
+               ++b)
+            {
+              auto       &block      = solutions[i]->block(b);
+              const auto &block_copy = solutions_copy[i]->block(b);
+
+              auto increase(block);
+              auto decrease(block);
+
+              const unsigned int n_owned = block.locally_owned_size();
+              const unsigned int n_total =
+                n_owned + block.get_partitioner()->n_ghost_indices();
+
+              // Ghost values can only be altered if they are not in use
+              increase.zero_out_ghost_values();
+              decrease.zero_out_ghost_values();
+
+              for (unsigned int j = 0; j < n_total; ++j)
+                {
+                  const Number diff =
+                    block.local_element(j) - block_copy.local_element(j);
+                  increase.local_element(j) = std::max<Number>(diff, 0.);
+                  decrease.local_element(j) = std::min<Number>(diff, 0.);
+                }
+
+              increase.compress(VectorOperation::max);
+              decrease.compress(VectorOperation::min);
+
+              for (unsigned int j = 0; j < n_owned; ++j)
+                if (block.local_element(j) == block_copy.local_element(j))
+                  block.local_element(j) += increase.local_element(j) > 0. ?
+                                              increase.local_element(j) :
+                                              decrease.local_element(j);
+            }
+
       return n_grains_remapped;
     }
 
-- 
2.43.0


From 45c6eb1912572c6de4b70fb39260b56e53cdffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:01 +0000
Subject: [PATCH 40/46] fix: time of the initial output

---
 .../sintering/include/pf-applications/sintering/driver.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index a7bf9fd..36ab6fa 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -186,7 +186,7 @@ namespace Sintering
       geometry_domain_boundaries = initial_solution->get_domain_boundaries();
       geometry_r_max             = initial_solution->get_r_max();
       geometry_interface_width   = initial_solution->get_interface_width();
-      time_last_output           = 0;
+      time_last_output = params.time_integration_data.time_start;
       n_timestep                 = 0;
       n_timestep_last_amr        = 0;
       n_timestep_last_gt         = 0;
-- 
2.43.0


From 07c6a3a395eb30ef65eff7d9bb50043654098615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 41/46] fix: header of the table if the simulation does not
 start at zero

---
 .../sintering/include/pf-applications/sintering/driver.h     | 5 ++++-
 .../include/pf-applications/sintering/postprocessors.h       | 2 +-
 applications/sintering/src/postprocessors.cc                 | 4 +---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/driver.h b/applications/sintering/include/pf-applications/sintering/driver.h
index 36ab6fa..7bf9d74 100644
--- a/applications/sintering/include/pf-applications/sintering/driver.h
+++ b/applications/sintering/include/pf-applications/sintering/driver.h
@@ -3195,7 +3195,10 @@ namespace Sintering
         {
           const std::string output =
             params.output_data.vtk_path + "/" + label + ".log";
-          Postprocessors::write_table(table, t, MPI_COMM_WORLD, output);
+          Postprocessors::write_table(table,
+                                      counters[label] == 0,
+                                      MPI_COMM_WORLD,
+                                      output);
         }
 
       if (params.output_data.grains_as_spheres)
diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index d8bd2a1..03f1ff3 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1753,7 +1753,7 @@ namespace Sintering
 
     void
     write_table(const TableHandler &table,
-                const double        t,
+                const bool          is_new,
                 const MPI_Comm     &comm,
                 const std::string   save_path);
 
diff --git a/applications/sintering/src/postprocessors.cc b/applications/sintering/src/postprocessors.cc
index a5859f8..151db6c 100644
--- a/applications/sintering/src/postprocessors.cc
+++ b/applications/sintering/src/postprocessors.cc
@@ -17,15 +17,13 @@
 
 void
 Sintering::Postprocessors::write_table(const TableHandler &table,
-                                       const double        t,
+                                       const bool          is_new,
                                        const MPI_Comm     &comm,
                                        const std::string   save_path)
 {
   if (Utilities::MPI::this_mpi_process(comm) != 0)
     return;
 
-  const bool is_new = (t == 0);
-
   std::stringstream ss;
   table.write_text(ss);
 
-- 
2.43.0


From d8fbacecf974c39f8f4d3658e675ce42a2289b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:37 +0000
Subject: [PATCH 42/46] fix: minimum mesh quality over the cells of the process

---
 .../include/pf-applications/sintering/postprocessors.h         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index 03f1ff3..af46818 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1858,6 +1858,9 @@ namespace Sintering
       Vector<typename BlockVectorType::value_type> quality(
         dof_handler.get_triangulation().n_active_cells());
 
+      // Cells which are not locally owned must not affect the minimum
+      quality = 1.;
+
       internal::do_output_mesh_quality(
         mapping, dof_handler, solution, output, quality);
 
-- 
2.43.0


From 74378845f0938be0a6493496afaa9a1b5287f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 43/46] fix: keep the number of subdivisions if there is no
 prime to reduce it to

With MaxPrime = 1 the list of primes is empty, the number of subdivisions
became zero and no mesh could be created.
---
 src/grid/grid_tools.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grid/grid_tools.cc b/src/grid/grid_tools.cc
index 195871d..96f7e19 100644
--- a/src/grid/grid_tools.cc
+++ b/src/grid/grid_tools.cc
@@ -50,6 +50,10 @@ hpsint::decompose_to_prime_tuple(const unsigned int n_ref,
 {
   const auto primes = get_primes(2, max_prime);
 
+  // There are no primes below 2, so the number can not be reduced
+  if (primes.empty())
+    return std::make_pair(n_ref, 0u);
+
   unsigned int optimal_prime      = 0;
   unsigned int n_refinements      = 0;
   unsigned int min_elements_delta = numbers::invalid_unsigned_int;
-- 
2.43.0


From bdaca38d44c401d36a07ffed3cee9ceaf080752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 44/46] fix: no negative number of refinements at the interface

If the coarse cells are fine enough for the interface, the logarithm of the
ratio is negative and its conversion to an unsigned number is undefined: the
numbers of refinements became huge or the mesh had no cells.
---
 include/pf-applications/grid/grid_tools.h | 8 +++++---
 src/grid/grid_tools.cc                    | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/pf-applications/grid/grid_tools.h b/include/pf-applications/grid/grid_tools.h
index fda5693..6115d95 100644
--- a/include/pf-applications/grid/grid_tools.h
+++ b/include/pf-applications/grid/grid_tools.h
@@ -662,8 +662,9 @@ namespace hpsint
 
     // Number of refinements to get the desirable element size
     const unsigned int n_refinements_interface =
-      static_cast<unsigned int>(std::ceil(
-        std::log2(elements_per_interface / max_level0_elements_per_interface)));
+      static_cast<unsigned int>(std::ceil(std::max(
+        0.,
+        std::log2(elements_per_interface / max_level0_elements_per_interface))));
 
     std::vector<unsigned int> subdivisions(dim);
     for (unsigned int d = 0; d < dim; d++)
@@ -752,7 +753,8 @@ namespace hpsint
 
     // Number of refinements to get the desirable element size
     const unsigned int n_refinements_interface =
-      static_cast<unsigned int>(std::ceil(std::log2(h_ref / h_e)));
+      static_cast<unsigned int>(
+        std::ceil(std::max(0., std::log2(h_ref / h_e))));
 
     std::vector<unsigned int> subdivisions(dim);
     for (unsigned int d = 0; d < dim; d++)
diff --git a/src/grid/grid_tools.cc b/src/grid/grid_tools.cc
index 96f7e19..d7a26ca 100644
--- a/src/grid/grid_tools.cc
+++ b/src/grid/grid_tools.cc
@@ -59,8 +59,11 @@ hpsint::decompose_to_prime_tuple(const unsigned int n_ref,
   unsigned int min_elements_delta = numbers::invalid_unsigned_int;
   for (const auto &p : primes)
     {
+      // No refinement is needed for primes which exceed the reference number
       const unsigned int s =
-        static_cast<unsigned int>(std::ceil(std::log2(n_ref / p)));
+        (n_ref > p) ?
+          static_cast<unsigned int>(std::ceil(std::log2(n_ref / p))) :
+          0;
       const unsigned int n_current     = p * std::pow(2, s);
       const unsigned int current_delta = static_cast<unsigned int>(
         std::abs(static_cast<int>(n_current - n_ref)));
-- 
2.43.0


From 6988eecdd218e4ee2edb59f6632dbfe5de06cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:57 +0000
Subject: [PATCH 45/46] fix: no recursion over all cells of a particle

The depth of the recursion was of the order of the number of cells of a
particle on a process, so that the stack overflowed for large ones.
---
 .../grain_tracker/distributed_stitching.h     | 214 +++++++++---------
 1 file changed, 106 insertions(+), 108 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 50d8806..871af3f 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -39,7 +39,7 @@ namespace GrainTracker
 
   template <int dim, typename VectorSolution, typename VectorIds>
   unsigned int
-  run_flooding(const typename DoFHandler<dim>::cell_iterator &cell,
+  run_flooding(const typename DoFHandler<dim>::cell_iterator &start_cell,
                const VectorSolution                          &solution,
                VectorIds                                     &particle_ids,
                const unsigned int                             id,
@@ -47,55 +47,55 @@ namespace GrainTracker
                const double threshold_lower     = 0,
                const double invalid_particle_id = -1.0)
   {
-    if (cell->has_children())
+    unsigned int counter = 0;
+
+    Vector<double> values(
+      start_cell->get_dof_handler().get_fe().n_dofs_per_cell());
+
+    // Cells still to be visited. No recursion here, since its depth would be of
+    // the order of the number of cells of the particle.
+    std::vector<typename DoFHandler<dim>::cell_iterator> cells{start_cell};
+
+    while (!cells.empty())
       {
-        unsigned int counter = 0;
-
-        for (const auto &child : cell->child_iterators())
-          counter += run_flooding<dim>(child,
-                                       solution,
-                                       particle_ids,
-                                       id,
-                                       max_value,
-                                       threshold_lower,
-                                       invalid_particle_id);
-
-        return counter;
-      }
+        const auto cell = cells.back();
+        cells.pop_back();
+
+        if (cell->has_children())
+          {
+            for (const auto &child : cell->child_iterators())
+              cells.push_back(child);
 
-    if (cell->is_locally_owned() == false)
-      return 0;
+            continue;
+          }
 
-    const auto particle_id = particle_ids[cell->global_active_cell_index()];
+        if (cell->is_locally_owned() == false)
+          continue;
 
-    if (particle_id != invalid_particle_id)
-      return 0; // cell has been visited
+        const auto particle_id = particle_ids[cell->global_active_cell_index()];
 
-    Vector<double> values(cell->get_fe().n_dofs_per_cell());
+        if (particle_id != invalid_particle_id)
+          continue; // cell has been visited
 
-    cell->get_dof_values(solution, values);
+        cell->get_dof_values(solution, values);
 
-    const auto cell_max_value = *std::max_element(values.begin(), values.end());
-    const bool has_particle   = cell_max_value > threshold_lower;
+        const auto cell_max_value =
+          *std::max_element(values.begin(), values.end());
+        const bool has_particle = cell_max_value > threshold_lower;
 
-    if (!has_particle)
-      return 0; // cell has no particle
+        if (!has_particle)
+          continue; // cell has no particle
 
-    particle_ids[cell->global_active_cell_index()] = id;
+        particle_ids[cell->global_active_cell_index()] = id;
 
-    max_value = std::max(max_value, cell_max_value);
+        max_value = std::max(max_value, cell_max_value);
 
-    unsigned int counter = 1;
+        ++counter;
 
-    for (const auto face : cell->face_indices())
-      if (cell->at_boundary(face) == false)
-        counter += run_flooding<dim>(cell->neighbor(face),
-                                     solution,
-                                     particle_ids,
-                                     id,
-                                     max_value,
-                                     threshold_lower,
-                                     invalid_particle_id);
+        for (const auto face : cell->face_indices())
+          if (cell->at_boundary(face) == false)
+            cells.push_back(cell->neighbor(face));
+      }
 
     return counter;
   }
@@ -534,101 +534,99 @@ namespace GrainTracker
     template <int dim, typename VectorIds>
     void
     run_flooding_prep(
-      const typename DoFHandler<dim>::cell_iterator &cell,
+      const typename DoFHandler<dim>::cell_iterator &start_cell,
       const VectorIds                               &particle_ids,
       VectorIds                                     &particle_markers,
       std::deque<std::vector<DoFCellAccessor<dim, dim, false>>> &agglomerations,
       const double invalid_particle_id = -1.0)
     {
-      if (cell->has_children())
+      // Cells still to be visited (see also run_flooding())
+      std::vector<typename DoFHandler<dim>::cell_iterator> cells{start_cell};
+
+      while (!cells.empty())
         {
-          for (const auto &child : cell->child_iterators())
-            run_flooding_prep<dim>(child,
-                                   particle_ids,
-                                   particle_markers,
-                                   agglomerations,
-                                   invalid_particle_id);
-
-          return;
-        }
+          const auto cell = cells.back();
+          cells.pop_back();
 
-      if (!cell->is_locally_owned())
-        return;
+          if (cell->has_children())
+            {
+              for (const auto &child : cell->child_iterators())
+                cells.push_back(child);
 
-      const auto particle_id = particle_ids[cell->global_active_cell_index()];
+              continue;
+            }
 
-      // If cell does not belong to any particle - skip it
-      if (particle_id == invalid_particle_id)
-        return;
+          if (!cell->is_locally_owned())
+            continue;
 
-      const auto particle_marker =
-        particle_markers[cell->global_active_cell_index()];
+          const auto particle_id =
+            particle_ids[cell->global_active_cell_index()];
 
-      // If cell has been visited - skip it
-      if (particle_marker != invalid_particle_id)
-        return;
+          // If cell does not belong to any particle - skip it
+          if (particle_id == invalid_particle_id)
+            continue;
 
-      // Use global particle ids for markers
-      particle_markers[cell->global_active_cell_index()] = particle_id;
+          const auto particle_marker =
+            particle_markers[cell->global_active_cell_index()];
 
-      for (const auto face : cell->face_indices())
-        if (!cell->at_boundary(face))
-          {
-            const auto neighbor = cell->neighbor(face);
+          // If cell has been visited - skip it
+          if (particle_marker != invalid_particle_id)
+            continue;
+
+          // Use global particle ids for markers
+          particle_markers[cell->global_active_cell_index()] = particle_id;
 
-            if (!neighbor->has_children())
+          for (const auto face : cell->face_indices())
+            if (!cell->at_boundary(face))
               {
-                const auto neighbor_particle_id =
-                  particle_ids[neighbor->global_active_cell_index()];
+                const auto neighbor = cell->neighbor(face);
 
-                if (neighbor_particle_id == invalid_particle_id)
-                  agglomerations[agglomerations.size() - cell->level() - 1]
-                    .push_back(*cell);
+                if (!neighbor->has_children())
+                  {
+                    const auto neighbor_particle_id =
+                      particle_ids[neighbor->global_active_cell_index()];
+
+                    if (neighbor_particle_id == invalid_particle_id)
+                      agglomerations[agglomerations.size() - cell->level() - 1]
+                        .push_back(*cell);
+                    else
+                      cells.push_back(neighbor);
+                  }
                 else
-                  run_flooding_prep<dim>(neighbor,
-                                         particle_ids,
-                                         particle_markers,
-                                         agglomerations,
-                                         invalid_particle_id);
-              }
-            else
-              {
-                for (const auto &child : neighbor->child_iterators())
                   {
-                    if (!child->is_active() || !child->is_locally_owned())
-                      continue;
+                    for (const auto &child : neighbor->child_iterators())
+                      {
+                        if (!child->is_active() || !child->is_locally_owned())
+                          continue;
 
-                    const auto child_particle_id =
-                      particle_ids[child->global_active_cell_index()];
+                        const auto child_particle_id =
+                          particle_ids[child->global_active_cell_index()];
 
-                    if (child_particle_id == invalid_particle_id)
-                      {
-                        for (const auto child_face : child->face_indices())
-                          if (!child->at_boundary(child_face))
-                            {
-                              const auto neighbor_of_child =
-                                child->neighbor(child_face);
-
-                              if (neighbor_of_child->is_active() &&
-                                  neighbor_of_child->is_locally_owned() &&
-                                  neighbor_of_child->id() == cell->id())
+                        if (child_particle_id == invalid_particle_id)
+                          {
+                            for (const auto child_face : child->face_indices())
+                              if (!child->at_boundary(child_face))
                                 {
-                                  agglomerations[agglomerations.size() -
-                                                 cell->level() - 1]
-                                    .push_back(*cell);
-                                  break;
+                                  const auto neighbor_of_child =
+                                    child->neighbor(child_face);
+
+                                  if (neighbor_of_child->is_active() &&
+                                      neighbor_of_child->is_locally_owned() &&
+                                      neighbor_of_child->id() == cell->id())
+                                    {
+                                      agglomerations[agglomerations.size() -
+                                                     cell->level() - 1]
+                                        .push_back(*cell);
+                                      break;
+                                    }
                                 }
-                            }
+                          }
                       }
-                  }
 
-                run_flooding_prep<dim>(neighbor,
-                                       particle_ids,
-                                       particle_markers,
-                                       agglomerations,
-                                       invalid_particle_id);
+                    cells.push_back(neighbor);
+                  }
               }
-          }
+        }
     }
   } // namespace internal
 
-- 
2.43.0


From 8b563860c1f457131e0ad3409d06dcdc874deaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:57 +0000
Subject: [PATCH 46/46] fix: no recursion over all cells of a pore

The depth of the recursion was of the order of the number of cells of a pore
on a process, so that the stack overflowed for large ones.
---
 .../sintering/postprocessors.h                | 79 ++++++++++---------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index af46818..3cfcaa3 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1143,7 +1143,7 @@ namespace Sintering
       template <int dim, typename BlockVectorType, typename Number>
       unsigned int
       run_flooding(
-        const typename DoFHandler<dim>::cell_iterator &cell,
+        const typename DoFHandler<dim>::cell_iterator &start_cell,
         const BlockVectorType                         &solution,
         LinearAlgebra::distributed::Vector<Number>    &particle_ids,
         const unsigned int                             id,
@@ -1151,54 +1151,57 @@ namespace Sintering
         const double invalid_particle_id                               = -1.0,
         std::shared_ptr<const BoundingBoxFilter<dim>> box_filter = nullptr)
       {
-        if (cell->has_children())
+        unsigned int counter = 0;
+
+        Vector<double> values(
+          start_cell->get_dof_handler().get_fe().n_dofs_per_cell());
+
+        // Cells still to be visited. No recursion here, since its depth would
+        // be of the order of the number of cells of the pore.
+        std::vector<typename DoFHandler<dim>::cell_iterator> cells{start_cell};
+
+        while (!cells.empty())
           {
-            unsigned int counter = 0;
-
-            for (const auto &child : cell->child_iterators())
-              counter += run_flooding<dim>(child,
-                                           solution,
-                                           particle_ids,
-                                           id,
-                                           threshold_upper,
-                                           invalid_particle_id,
-                                           box_filter);
+            const auto cell = cells.back();
+            cells.pop_back();
 
-            return counter;
-          }
+            if (cell->has_children())
+              {
+                for (const auto &child : cell->child_iterators())
+                  cells.push_back(child);
 
-        if (cell->is_locally_owned() == false ||
-            (box_filter && box_filter->point_outside(cell->barycenter())))
-          return 0;
+                continue;
+              }
 
-        const auto particle_id = particle_ids[cell->global_active_cell_index()];
+            if (cell->is_locally_owned() == false ||
+                (box_filter && box_filter->point_outside(cell->barycenter())))
+              continue;
 
-        if (particle_id != invalid_particle_id)
-          return 0; // cell has been visited
+            const auto particle_id =
+              particle_ids[cell->global_active_cell_index()];
 
-        Vector<double> values(cell->get_fe().n_dofs_per_cell());
+            if (particle_id != invalid_particle_id)
+              continue; // cell has been visited
 
-        for (unsigned int b = 0; b < solution.n_blocks(); ++b)
-          {
-            cell->get_dof_values(solution.block(b), values);
+            bool is_empty = true;
+            for (unsigned int b = 0; is_empty && b < solution.n_blocks(); ++b)
+              {
+                cell->get_dof_values(solution.block(b), values);
 
-            if (values.linfty_norm() >= threshold_upper)
-              return 0;
-          }
+                is_empty = !(values.linfty_norm() >= threshold_upper);
+              }
+
+            if (!is_empty)
+              continue;
 
-        particle_ids[cell->global_active_cell_index()] = id;
+            particle_ids[cell->global_active_cell_index()] = id;
 
-        unsigned int counter = 1;
+            ++counter;
 
-        for (const auto face : cell->face_indices())
-          if (cell->at_boundary(face) == false)
-            counter += run_flooding<dim>(cell->neighbor(face),
-                                         solution,
-                                         particle_ids,
-                                         id,
-                                         threshold_upper,
-                                         invalid_particle_id,
-                                         box_filter);
+            for (const auto face : cell->face_indices())
+              if (cell->at_boundary(face) == false)
+                cells.push_back(cell->neighbor(face));
+          }
 
         return counter;
       }
-- 
2.43.0

